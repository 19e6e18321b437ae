"""C08: text is split into the documented tokens."""
import ast
import re
from itertools import product
from ..explore import Case, Undecided, Violation
from ..values import *
from .. import rx
from .common import *

EXPLAIN = (
    'Two arguments.  (1) The pattern that the tokeniser matches tokens with '
    'and the one it skips with are read from the interpreted source, '
    'compiled to automata (never matched) and compared, by exhausting the '
    'product with a reference automaton of the documented tokens (longest '
    'match) and of white space and comments, so for every text of every '
    'length.  (2) The tokenising function itself is interpreted on a cover '
    'of the product: every text of up to two characters of the alphabet, '
    'every ordered pair of representative tokens with every separator, '
    'every state of the string automaton with every character, in the '
    'middle of other text; kinds, extents, values, order, the error '
    'position and termination are compared with a reference tokeniser.')
FLOOR = {'quick': 300, 'thorough': 600}
HISTORIES = False
LEX = 'datashape.lexer'

# ------------------------------------------------------ reference tokeniser
# Written from the documented definitions; no pattern of the code is used.

LOWER = 'abcdefghijklmnopqrstuvwxyz'
UPPER_ = LOWER.upper()
DIGITS = '0123456789'
NAME = LOWER + UPPER_ + DIGITS + '_'
SINGLE = {'*': 'ASTERISK', ',': 'COMMA', '=': 'EQUAL', ':': 'COLON',
          '[': 'LBRACKET', ']': 'RBRACKET', '{': 'LBRACE', '}': 'RBRACE',
          '(': 'LPAREN', ')': 'RPAREN', '?': 'QUESTIONMARK'}
ESCAPES = {'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}


def ref_string(t, p):
    """(end, value) of a string token at p, or None"""
    q = t[p]
    out, k = [], p + 1
    while k < len(t):
        c = t[k]
        if c == q:
            return k + 1, ''.join(out)
        if c in '\n\r':
            return None
        if c != '\\':
            out.append(c)
            k += 1
            continue
        e = t[k + 1:k + 2]
        if e == q:
            out.append(q)
            k += 2
        elif e and e in ESCAPES:
            out.append(ESCAPES[e])
            k += 2
        elif e == 'u':
            h = t[k + 2:k + 6]
            if len(h) < 4 or any(x not in DIGITS + 'abcdefABCDEF'
                                 for x in h):
                return None
            out.append(chr(int(h, 16)))
            k += 6
        else:
            return None
    return None


def ref_token(t, p):
    """(name, end, value) at p, or None"""
    c = t[p]
    if c in LOWER + UPPER_ + '_':
        k = p
        while k < len(t) and t[k] in NAME:
            k += 1
        w = t[p:k]
        if w in ('True', 'False'):
            return 'BOOLEAN', k, w == 'True'
        return ('NAME_LOWER' if c in LOWER else 'NAME_UPPER' if c in UPPER_
                else 'NAME_OTHER', k, w)
    if c in SINGLE:
        return SINGLE[c], p + 1, None
    if t[p:p + 3] == '...':
        return 'ELLIPSIS', p + 3, None
    if t[p:p + 2] == '->':
        return 'RARROW', p + 2, None
    if c == '0':
        if t[p + 1:p + 2] and t[p + 1] in DIGITS:
            return None
        return 'INTEGER', p + 1, 0
    if c in DIGITS or c == '-':
        k = p + (c == '-')
        if not t[k:k + 1] or t[k] not in DIGITS[1:]:
            return None
        while k < len(t) and t[k] in DIGITS:
            k += 1
        return 'INTEGER', k, int(t[p:k])
    if c in '"\'':
        r = ref_string(t, p)
        return r and ('STRING',) + r
    return None


def ref_skip(t, p):
    while p < len(t):
        if t[p].isspace():
            p += 1
        elif t[p] == '#':
            while p < len(t) and t[p] != '\n':
                p += 1
        else:
            break
    return p


def ref_lex(t):
    """([(name, (start, end), value)], position of the error or None)"""
    out, p = [], ref_skip(t, 0)
    while p < len(t):
        r = ref_token(t, p)
        if r is None:
            return out, p
        out.append((r[0], (p, r[1]), r[2]))
        p = ref_skip(t, r[1])
    return out, None


# ------------------------------------------------------------ (2) the cover

def ids(L):
    memo = L.__dict__.setdefault('_token_ids', {})
    if not memo:
        for n in ['BOOLEAN', 'NAME_LOWER', 'NAME_UPPER', 'NAME_OTHER',
                  'ELLIPSIS', 'RARROW', 'INTEGER', 'STRING'] + list(
                      SINGLE.values()):
            memo[n] = L.i.res(L.api(n, LEX))
    return memo


def check_text(L, t):
    want, err = ref_lex(t)
    i = L.i
    got = []
    what = 'tokenising %r' % t
    try:
        it = i.call(L.api('lex', LEX), [t], {})
        for tok in i.iterate(it):
            got.append(tok)
            L.check(len(got) <= len(t), '%s delivers more tokens than there '
                    'are characters' % what)
        exc = None
    except Raised as e:
        exc = e.exc
    except Budget as e:
        raise Violation('%s does not come to an end (%s)' % (what, e))
    known = ids(L)
    for n, tok in enumerate(got):
        L.check(n < len(want), '%s delivers the extra token %s' % (
            what, L.show(tuple(L.attr(tok, a) for a in (
                'name', 'span', 'val')))))
        name, span, val = want[n]
        g = tuple(L.attr(tok, a) for a in ('id', 'name', 'span', 'val'))
        sp = g[2]
        sp = tuple(i.res(x) for x in L.items(sp))
        L.check(g[1] == name and g[0] == known[name],
                '%s: token %d is %s' % (what, n, L.show(g)))
        L.check(sp == span, '%s: token %d is at %s' % (what, n, sp))
        v = i.res(g[3])
        L.check(type(v) is type(val) and v == val,
                '%s: the value of token %d is %s' % (what, n, L.show(v)))
    if err is None:
        L.check(exc is None, '%s raises %s' % (
            what, exc is not None and L.exc_text(exc)))
        L.check(len(got) == len(want), '%s delivers %d of %d tokens' % (
            what, len(got), len(want)))
    else:
        L.check(exc is not None, '%s is accepted' % what)
        L.check(L.exc_is(exc, SyntaxError), '%s raises %s' % (
            what, L.exc_text(exc)))
        pos = exc.attrs.get('lexpos', MISSING)
        L.check(pos is not MISSING and i.res(pos) == err,
                '%s reports position %s' % (what, L.show(pos)))


def texts(ts):
    def f(L):
        for t in ts:
            check_text(L, t)
    return f


TOKENS = ['a', 'zZ9_', 'true', 'int32', 'A', 'Zz_0', 'True', 'False',
          'True_', 'Truea', 'False0', 'TrueA', 'Tru', 'Fals', '_', '_a9Z_',
          '__', '*', ',', '=', ':', '[', ']', '{', '}', '(', ')', '...',
          '->', '?', '0', '7', '-5', '10', '-120', '90', '""', "''", '"a"',
          "'b c'", '"\\u00e9"', "'#'", '"\'"', "'\"'", '"\\""', "'\\''",
          '"\\n"', "'\u4e2d'", '"x\\b\\f\\r\\ty"', "'\\u0041\\u0042'"]
BAD = ['.', '..', '-', '00', '-0', '01', '$', '\\', '"', "'", '"a', "'a",
       '"\\x"', '"\\\'"', "'\\\"'", '"\\u12"', '"\n"', "'\r'", '~', '\xe9',
       '\u4e2d', '\u0663', '>', '-a', '- 5', '@', '"\\u12g4"', '"\\\\"',
       '"\\N"', "'\\a'", '\x00', '+1', '1.5', '"\\']
SEPARATORS = ['', ' ', '\n', '\t', '\r\n', '#\n', '# c\n', '# "\'\n ',
              '#c\r\n', '\xa0', '\u2028', '  \n#a\n#b\n\n', '\x85', '\x0c']
CHARS = rx.ALPHABET + ['\ud800', '\U000e0001', '\x1f', '\u200b', '\u3000']


def string_words():
    """Every state of the string automaton with every character next."""
    heads = ['', 'a', '\\', '\\u', '\\u1', '\\uaF', '\\u12f', '\\u12fE',
             '\\n', 'b\\', '\\"', "\\'", '\\t\\', '\u4e2d', '# ']
    for q in '"\'':
        for h in heads:
            for c in CHARS:
                for tail in ('', q, 'a' + q, '000' + q):
                    yield q + h + c + tail
            yield q + h
            yield q + h + q
            yield q + h + q + q


def words():
    yield ''
    for a in CHARS:
        yield a
    for a in CHARS:
        for b in CHARS:
            yield a + b
    for x in TOKENS + BAD:
        for c in CHARS:
            yield x + c
            yield c + x
    for s in SEPARATORS:
        yield s
        for x in TOKENS + BAD:
            yield s + x
            yield x + s
            yield s + x + s
            yield x + s + '#'
            yield x + '#' + s
    for x in TOKENS:
        for y in TOKENS + BAD:
            for s in SEPARATORS[:9]:
                yield x + s + y
    for w in string_words():
        yield w
        yield 'a:' + w + ' *'
    for n in (3, 7, 30, 200):
        yield 'a' * n
        yield '1' * n
        yield '-1' + '0' * n
        yield '"%s"' % ('x' * n)
        yield "'%s'" % ('\\u00e9' * n)
        yield '(' * n
        yield '*' * n + ' $'
        yield '.' * n
        yield ' ' * n + 'a'
        yield '#\n' * n + 'a'
        yield '# c' * n
        yield ', '.join(['a: 3 * b'] * n)
    small = ['a', 'T', '_', 'True', '3', '"x"', "'y'", '...', '->', ',', '#c']
    for c in product(small, repeat=3):
        yield ' '.join(c)
        yield ''.join(c)
        yield '\n'.join(c)


def batches(it, n):
    out = []
    for x in it:
        out.append(x)
        if len(out) == n:
            yield out
            out = []
    if out:
        yield out


# --------------------------------------------------------- (1) the automata

REF = [('BOOLEAN', r'(?:True|False)(?![a-zA-Z0-9_])'),
       ('NAME_LOWER', r'[a-z][a-zA-Z0-9_]*'),
       ('NAME_UPPER', r'[A-Z][a-zA-Z0-9_]*'),
       ('NAME_OTHER', r'_[a-zA-Z0-9_]*')] + [
           (n, re.escape(c)) for c, n in SINGLE.items()] + [
       ('ELLIPSIS', r'\.\.\.'), ('RARROW', r'->'),
       ('INTEGER', r'0(?![0-9])|-?[1-9][0-9]*'),
       ('STRING', r'"(?:[^"\\\n\r]|\\u[0-9a-fA-F]{4}|\\["bfnrt])*"|'
                  r"'(?:[^'\\\n\r]|\\u[0-9a-fA-F]{4}|\\['bfnrt])*'")]


class Longest(object):
    """Longest match of several patterns; earlier ones win ties."""

    def __init__(self, table):
        self.progs = [(n, rx.Prog(p)) for n, p in table]

    def start(self):
        return tuple((None, frozenset([0])) for _ in self.progs)

    def step(self, state, c):
        """(name that matches here or None, next state or None)"""
        match, out = None, []
        for (name, p), st in zip(self.progs, state):
            if st is None:
                out.append(None)
                continue
            prev, pcs = st
            cl = p.closure([(pc, 0) for pc in sorted(pcs)], prev, c)
            if match is None and any(p.code[pc][0] == 'match'
                                     for pc, g in cl):
                match = name
            nxt = frozenset(pc + 1 for pc, g in cl
                            if p.code[pc][0] == 'char' and c is not None
                            and c in p.code[pc][1])
            out.append((p.sig(c), nxt) if nxt else None)
        return match, (tuple(out) if any(out) else None)

    def sets(self):
        return [s for _, p in self.progs for s in p.tell_apart()]


class First(object):
    """The pattern of the code: leftmost-first."""

    def __init__(self, pattern, names=None):
        self.p = rx.Prog(pattern)
        self.names = names

    def start(self):
        return self.p.start()

    def step(self, state, c):
        g, ns = self.p.step(state, c)
        if g is None:
            return None, ns
        if self.names is None:
            return 'skip', ns
        return self.names.get(g, 'group %s' % g), ns

    def sets(self):
        return self.p.tell_apart()


def differ(a, b, limit=60000):
    """A shortest text on which the two machines have different results, or
    None.  The result is the last match seen."""
    groups = [g[0] for g in rx.classes(a.sets() + b.sets())]
    groups.sort(key=rx._pref.index)
    # (state a, state b, last name of a, last name of b, same extent?)
    start = (a.start(), b.start(), None, None, True)
    seen = {start: None}
    order = [start]
    for st in order:
        x, y, ra, rb, same = st
        for c in groups + [None]:
            ma, nx = a.step(x, c) if x is not None else (None, None)
            mb, ny = b.step(y, c) if y is not None else (None, None)
            na, nb, ns = ra, rb, same
            if ma is not None and mb is not None:
                na, nb, ns = ma, mb, True
            elif ma is not None:
                na, ns = ma, False
            elif mb is not None:
                nb, ns = mb, False
            end = c is None or nx is None and ny is None
            if end:
                if na != nb or na is not None and not ns:
                    w, s = [] if c is None else [c], st
                    while seen[s] is not None:
                        s, d = seen[s]
                        w.append(d)
                    return ''.join(rx.ALPHABET[d] for d in reversed(w))
                continue
            t = (nx, ny, na, nb, ns)
            if t not in seen:
                seen[t] = (st, c)
                order.append(t)
                if len(order) > limit:
                    raise Undecided('the product has more than %d states' %
                                    limit)
    return None


def find_patterns(L):
    """(token pattern, skipping pattern, {group: token name})"""
    i = L.i
    names, tok, skips = {}, [], []
    for t in TOKENS:
        want, err = ref_lex(t)
        if err is not None or len(want) != 1:
            continue
        for s in (t, ' ' + t):
            i.re_trace = []
            try:
                L.items(i.call(L.api('lex', LEX), [s], {}))
                trace = i.re_trace
            except Violation:
                raise Undecided('%r is not tokenised' % s)
            finally:
                i.re_trace = None
            at = len(s) - len(t)
            for pat, how, text, rest, m in trace:
                if how != 'match' or text is not s or not isinstance(
                        m, re.Match):
                    continue
                if m.span() == (at, len(s)) and m.lastindex:
                    if pat not in tok:
                        tok.append(pat)
                    if names.setdefault(m.lastindex, want[0][0]) != \
                            want[0][0]:
                        raise Undecided('group %d has several meanings' %
                                        m.lastindex)
                elif at and m.span() == (0, 1) and pat not in skips:
                    skips.append(pat)
    if len(tok) != 1 or len(skips) != 1:
        raise Undecided('the tokeniser does not use one pattern for tokens '
                        'and one to skip')
    return tok[0], skips[0], names


def automata(which):
    def f(L):
        tok, skip, names = find_patterns(L)
        try:
            if which == 'token':
                w = differ(First(tok, names), Longest(REF))
            else:
                w = differ(First(skip), Longest([
                    ('skip', r'(?:\s|#[^\n]*(?=\n|\Z))*')]))
        except rx.Unsupported as e:
            raise Undecided('pattern feature %s' % e)
        L.check(w is None, 'the %s pattern %r differs from the documentation '
                'on %r' % (which, (tok if which == 'token' else skip).pattern,
                           w))
    return f


def constants(L):
    """Integer literals of the tokeniser: lengths that might matter."""
    path = getattr(L.mod(LEX), 'path', None)
    try:
        tree = ast.parse(open(path).read())
    except Exception:
        return []
    return sorted(set(n.value for n in ast.walk(tree) if isinstance(
        n, ast.Constant) and type(n.value) is int and 4 < n.value < 50000))


def long_texts(n):
    for k in (n - 1, n, n + 1):
        for w in ('a' * k, '7' * min(k, 4000), '"%s"' % ('x' * k),
                  '"%s"' % ('x' * (k - 2)), ' ' * k + 'a', '#' + 'c' * k,
                  '#' + 'c' * k + '\na', 'a' + ' ' * (k - 1) + '*',
                  'a' + ' ' * (k - 1) + '$'):
            yield w
        if k < 600:
            yield '* ' * k + 'a'
            yield '* ' * k + '$'


def cases(L, tier):
    ids(L)
    for n in constants(L):
        yield Case('texts of length %d' % n, texts(list(long_texts(n))))
    yield Case('token pattern', automata('token'))
    yield Case('skipping pattern', automata('skipping'))
    seen = list(dict.fromkeys(words()))
    if tier == 'thorough':
        small = [c for c in CHARS if not c.isalnum()] + list('aAtTz09u_')
        seen += [''.join(c) for c in product(small, repeat=3)]
        seen = list(dict.fromkeys(seen))
    for n, ts in enumerate(batches(iter(seen), 100)):
        yield Case('texts %d from %r' % (n, ts[0]), texts(ts))
