"""C26: syntax errors point at the offending token."""
from itertools import product
from ..explore import Case, Undecided, Violation
from ..values import *
from .common import *
from . import gram, c06

EXPLAIN = (
    'The lexer, the parser and the error class are interpreted on malformed '
    'token sequences (every extension of every viable prefix, pairs of '
    'tokens in every parser state, single-token edits of a corpus using '
    'every production) laid out on one and on several lines, with comments '
    'and unknown characters, and the position is compared with the first '
    'token at which the reference parser is stuck (or the dimension without '
    'its asterisk directly before it).  The position arithmetic is also '
    'compared, for every text over a letter and a line break up to length '
    'six and every position in it.')
FLOOR = {'quick': 200, 'thorough': 400}
HISTORIES = False

GAPS = [[' '], ['\n'], [' ', '\n'], ['\n', ' ', '\t'], ['\r\n  ', ' '],
        [' # x\n', ' '], ['\n\n', '   '], [' ', ' ', ' ', '\n '],
        ['\t', '\n# *\n ', ' ']]
ENDS = [('', ''), ('', ''), ('\n', ''), ('', '\n'), ('  ', ' '),
        ('# int32 *\n', '\n# {'), ('\n\n ', '\n\n'), ('\t\n', ' # x')]


def lay(toks, n):
    """The text, the start of every token, and the end of the last."""
    gaps = GAPS[n % len(GAPS)]
    start, end = ENDS[n % len(ENDS)]
    out, at, starts = start, len(start), []
    for k, t in enumerate(toks):
        starts.append(len(out))
        out += t
        if k + 1 < len(toks):
            out += gaps[k % len(gaps)]
    last = len(out) if toks else 0
    return out + end, starts, last


def check_error(L, e, text):
    """The fields of the error agree with its position."""
    at = L.i.res(L.attr(e, 'lexpos'))
    got = L.i.res(L.attr(e, 'text'))
    L.check(got == text, 'the error for %r is about %r' % (text, got))
    L.check(isinstance(at, int) and 0 <= at <= len(text),
            'the error for %r is at %r' % (text, at))
    before = text[:at].split('\n')
    line = text.split('\n')[len(before) - 1]
    col = len(before[-1])
    for name, want in [('lineno', len(before)), ('col_offset', col),
                       ('line', line)]:
        v = L.i.res(L.attr(e, name))
        L.check(v == want, 'the error at %d of %r has the %s %r instead of '
                '%r' % (at, text, name, v, want))
    shown = L.i.res(L.str(e))
    L.check(isinstance(shown, str), 'the error of %r is shown as %s' % (
        text, L.show(shown)))
    marked = 'line %d\n    %s\n    %s^\n' % (len(before), line, ' ' * col)
    L.check(marked in shown + '\n', 'the error at %d of %r is shown as %r' % (
        at, text, shown))
    msg = L.i.res(L.attr(e, 'msg'))
    L.check(isinstance(msg, str) and msg and msg in shown,
            'the error at %d of %r has the message %r and is shown as %r' % (
                at, text, msg, shown))
    return at


def check_position(L, toks, n):
    text, starts, last = lay(toks, n)
    kind, e = L.outcome('dshape', text)
    if kind == 'ret' or not L.exc_is(e, SyntaxError):
        return
    if not L.isinst(e, 'DataShapeSyntaxError'):
        raise Violation('dshape(%r) raises %s' % (text, L.exc_text(e)))
    about = L.i.res(L.attr(e, 'text'))
    if about != text and any(gram.kind(t) == 'str' and gram.value(t) == about
                             for t in toks):
        # a text among the arguments was parsed as a datashape
        check_error(L, e, about)
        return
    at = check_error(L, e, text)
    starts = starts + [last]
    bad = [k for k, t in enumerate(toks) if t in BAD]
    verdict, pos, ref = gram.judge(toks)
    if bad:
        # the lexer is stuck there, unless the parser was before
        if verdict != 'syntax' or pos > bad[0]:
            pos, ref.since = bad[0], None
        # the lexer may be one token ahead
        good = [starts[pos]] + [starts[bad[0]]] * (bad[0] <= pos + 1)
    elif verdict == 'syntax' and not ref.odd_keyword:
        good = [starts[pos]]
    else:
        good = starts
    if verdict == 'syntax' and ref.since is not None:
        good += starts[ref.since:pos + 1]
    L.check(at in good, 'the error for %r is at %d instead of %s' % (
        text, at, ' or '.join(map(str, sorted(set(good))))))


BAD = ('$', '\u00e9', '\x00', '-', '.', '"', '\ud800', '!')


def batch(seqs):
    def f(L):
        for toks, n in seqs:
            check_position(L, toks, n)
    return f


def arithmetic(texts):
    def f(L):
        for t in texts:
            for at in range(len(t) + 1):
                for msg in ('wrong', None):
                    e = L.new('DataShapeSyntaxError', at, 'file', t, msg) \
                        if msg else L.new('DataShapeSyntaxError', at, 'file',
                                          t)
                    L.check(L.i.res(L.attr(e, 'lexpos')) == at,
                            'the position of an error changed')
                    L.check(L.i.res(L.attr(e, 'filename')) == 'file' and
                            'File file, line' in L.i.res(L.str(e)),
                            'the file of an error changed')
                    if msg:
                        L.check(L.i.res(L.attr(e, 'msg')) == msg,
                                'the message of an error changed')
                    check_error(L, e, t)
    return f


def cases(L, tier):
    deep = tier == 'thorough'
    seen = set()
    out = []

    def add(toks):
        t = tuple(toks)
        if t not in seen:
            seen.add(t)
            # accepted ones tell nothing
            if gram.judge(t)[0] != 'ok' or any(x in BAD for x in t):
                out.append((t, len(out)))
    for t in c06.prefixes(5 if deep else 4, c06.FEW):
        add(t)
    for before, after in c06.CONTEXTS:
        b, a = before.split(), after.split()
        for t in product(c06.TOKENS, repeat=2 if deep else 1):
            add(b + list(t))
            add(b + list(t) + a)
        for t in BAD:
            add(b + [t] + a)
            add(b + [t])
            add(b + ['T', t])
    for s in c06.CORPUS:
        toks = s.split()
        if deep or len(toks) < 12:
            for n, t in enumerate(c06.edits(s)):
                if deep or n % 3 == 0:
                    add(t)
        for k in range(len(toks) + 1):
            add(toks[:k])
            add(toks[:k] + [BAD[k % len(BAD)]] + toks[k:])
            add(toks[:k] + [c06.FEW[k * 7 % len(c06.FEW)]] + toks[k:])
    for s in c06.REFUSED:
        add(s.split())
    # far to the right, and far down
    for n in (30, 150) + ((700,) if deep else ()):
        for g in range(len(GAPS)):
            add(['('] + ['T', ','] * n + ['[', 'T'] + ['*'] * g)
            add(['{', 'a', ':'] * 2 + ['{'] + [
                'b', ':', 'T', ','] * (n // 2) + ['c'] + ['T'] * g)
    if deep:
        out += [(t, n + 4) for t, n in out]
    step = 60
    for k in range(0, len(out), step):
        yield Case('token sequences %d from %s' % (k, ' '.join(out[k][0])),
                   batch(out[k:k + step]), relaxed=True)
    for n in range(7 if deep else 6):
        for t in product('x\n', repeat=min(n, 3)):
            head = ''.join(t)
            yield Case('position in %r...' % head, arithmetic(
                [head + ''.join(r) for r in product(
                    'x\n', repeat=max(0, n - 3))]), relaxed=True)
    for t in ['ab c\r\nd\te\x0bf\x0c\u2028g\x85\n\nh', '\r\r\n\n\r', 'a{b}c\n'
 '%s {x}\n{}',
              'x' * 90 + '\n' + 'y' * 7,
              '\n' * 40 + 'z' * 3, '\u4e2d\u00e9\n\u0660', '{msg}\n{0}']:
        yield Case('position in %r' % t, arithmetic([t]), relaxed=True)
