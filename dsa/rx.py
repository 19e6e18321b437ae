"""Regular languages of the analysed source's patterns.

A pattern is compiled (from its parse tree, never by matching it) to a small
nondeterministic program, and that to automata over a representative alphabet:
all of ASCII and one character of every other kind the patterns can tell apart
(unicode letter, digit, space, line break, other).
"""
import re
try:
    import re._parser as sre
    import re._constants as sc
except ImportError:             # Python < 3.11
    import sre_parse as sre
    import sre_constants as sc

ALPHABET = [chr(i) for i in range(128)] + [
    '\x85', '\xa0', '\u2028',       # white space and line breaks
    '\xe9', '\xc9', '\u4e2d', '\xaa',           # letters
    '\u0663', '\xb2',               # decimal digit, other digit
    '\u20ac', '\U0001f600', '\xad', '\ufeff', '\xff']
INDEX = {c: i for i, c in enumerate(ALPHABET)}
N = len(ALPHABET)
ALL = frozenset(range(N))
SPACE = frozenset(i for i, c in enumerate(ALPHABET) if c.isspace())
WORD = frozenset(i for i, c in enumerate(ALPHABET) if re.match(r'\w', c))
NL = frozenset([INDEX['\n']])


class Unsupported(Exception):
    pass


def char_index(c):
    """Index of the representative of a character."""
    if c in INDEX:
        return INDEX[c]
    kind = (c.isalpha(), c.isdigit(), c.isdecimal(), c.isspace(),
            c.isprintable(), c.islower(), c.isupper())
    for d in ALPHABET[128:]:
        if kind == (d.isalpha(), d.isdigit(), d.isdecimal(), d.isspace(),
                    d.isprintable(), d.islower(), d.isupper()):
            return INDEX[d]
    return INDEX['\u20ac']


def _category(av, flags):
    name = str(av)
    esc = {'CATEGORY_DIGIT': r'\d', 'CATEGORY_NOT_DIGIT': r'\D',
           'CATEGORY_SPACE': r'\s', 'CATEGORY_NOT_SPACE': r'\S',
           'CATEGORY_WORD': r'\w', 'CATEGORY_NOT_WORD': r'\W'}[name]
    return frozenset(i for i, c in enumerate(ALPHABET)
                     if re.match(esc, c, re.ASCII if flags & re.ASCII else 0))


def _lit(code, flags):
    c = chr(code)
    s = {char_index(c)}
    if flags & re.IGNORECASE:
        s |= {char_index(x) for x in (c.lower(), c.upper()) if len(x) == 1}
    return frozenset(s)


def _range(lo, hi, flags):
    out = set()
    for i, c in enumerate(ALPHABET):
        if lo <= ord(c) <= hi:
            out.add(i)
        elif flags & re.IGNORECASE and any(
                len(x) == 1 and lo <= ord(x) <= hi
                for x in (c.lower(), c.upper())):
            out.add(i)
    return frozenset(out)


def charset(op, av, flags):
    """The set of alphabet indices of a one-character node, or None."""
    if op is sc.LITERAL:
        return _lit(av, flags)
    if op is sc.NOT_LITERAL:
        return ALL - _lit(av, flags)
    if op is sc.ANY:
        return ALL if flags & re.DOTALL else ALL - NL
    if op is sc.IN:
        out, neg = set(), False
        for o, a in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                out |= _lit(a, flags)
            elif o is sc.RANGE:
                out |= _range(a[0], a[1], flags)
            elif o is sc.CATEGORY:
                out |= _category(a, flags)
            else:
                raise Unsupported(str(o))
        return frozenset(ALL - out if neg else out)
    return None


def run_of(pat):
    """The characters if the pattern is a longest run of one or more of a
    set of characters, else None."""
    try:
        tree = list(sre.parse(pat.pattern, pat.flags))
        if len(tree) != 1 or tree[0][0] is not sc.MAX_REPEAT:
            return None
        lo, hi, sub = tree[0][1]
        if lo != 1 or hi is not sc.MAXREPEAT or len(sub) != 1:
            return None
        return charset(sub[0][0], sub[0][1], pat.flags)
    except Unsupported:
        return None


class Prog(object):
    """Instructions: (op, ...) with op in char, split, jmp, save, assert,
    match."""

    def __init__(self, pattern, flags=0, top_match=True):
        if isinstance(pattern, re.Pattern):
            flags = pattern.flags
            pattern = pattern.pattern
        tree = sre.parse(pattern, flags & ~re.DEBUG)
        self.flags = tree.state.flags | flags
        self.code = []
        self.behind = []        # character sets looked at behind a position
        self.seq(tree, self.flags)
        self.emit('match')
        self.closures = {}

    def emit(self, *ins):
        self.code.append(list(ins))
        return len(self.code) - 1

    def seq(self, tree, flags):
        for op, av in tree:
            self.node(op, av, flags)

    def node(self, op, av, flags):
        cs = charset(op, av, flags)
        if cs is not None:
            self.emit('char', cs)
        elif op is sc.BRANCH:
            _, alts = av
            ends = []
            for n, alt in enumerate(alts):
                if n < len(alts) - 1:
                    s = self.emit('split', len(self.code) + 1, None)
                    self.seq(alt, flags)
                    ends.append(self.emit('jmp', None))
                    self.code[s][2] = len(self.code)
                else:
                    self.seq(alt, flags)
            for e in ends:
                self.code[e][1] = len(self.code)
        elif op is sc.SUBPATTERN:
            group, add, rem, p = av
            self.seq(p, (flags | add) & ~rem)
            if group is not None:
                self.emit('save', group)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            if lo > 40 or (hi is not sc.MAXREPEAT and hi > 40):
                raise Unsupported('repeat')
            greedy = op is sc.MAX_REPEAT

            def split():
                return self.emit('split', None, None)

            def fix(s, body, out):
                self.code[s][1:] = [body, out] if greedy else [out, body]
            for _ in range(lo):
                self.seq(p, flags)
            if hi is sc.MAXREPEAT:
                s = split()
                self.seq(p, flags)
                self.emit('jmp', s)
                fix(s, s + 1, len(self.code))
            else:
                ss = []
                for _ in range(hi - lo):
                    ss.append(split())
                    self.seq(p, flags)
                for s in ss:
                    fix(s, s + 1, len(self.code))
        elif op is sc.AT:
            multi = flags & re.MULTILINE
            name = str(av)
            if name in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
                if name == 'AT_BEGINNING' and multi:
                    self.emit('assert', 'behind', self.look(NL), True, True)
                else:
                    self.emit('assert', 'behind', self.look(frozenset()),
                              True, True)
            elif name == 'AT_END':
                if multi:
                    self.emit('assert', 'ahead', NL, True, True)
                else:
                    self.emit('assert', 'dollar')
            elif name == 'AT_END_STRING':
                self.emit('assert', 'ahead', frozenset(), True, True)
            elif name in ('AT_BOUNDARY', 'AT_NON_BOUNDARY'):
                w = WORD
                if flags & re.ASCII:
                    w = frozenset(i for i in WORD if i < 128)
                self.emit('assert', 'word', self.look(w), w,
                          name == 'AT_BOUNDARY')
            else:
                raise Unsupported(name)
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            direction, p = av
            pos = op is sc.ASSERT
            cs, end = self.one(p, flags)
            if direction > 0:
                # (kind, set, does the end of text satisfy it, polarity)
                self.emit('assert', 'ahead', cs, end, pos)
            else:
                self.emit('assert', 'behind', self.look(cs), end, pos)
        else:
            raise Unsupported(str(op))

    def one(self, p, flags):
        """Assertion body as a single character class (and/or the end)."""
        p = list(p)
        if len(p) == 1:
            op, av = p[0]
            cs = charset(op, av, flags)
            if cs is not None:
                return cs, False
            if op is sc.SUBPATTERN:
                return self.one(av[3], flags)
            if op is sc.BRANCH:
                cs, end = frozenset(), False
                for alt in av[1]:
                    c, e = self.one(alt, flags)
                    cs, end = cs | c, end or e
                return cs, end
            if op is sc.AT and str(av) in ('AT_END_STRING',):
                return frozenset(), True
        raise Unsupported('assertion')

    def look(self, cs):
        if cs not in self.behind:
            self.behind.append(cs)
        return self.behind.index(cs)

    def sig(self, i):
        """What the assertions may know of the character before."""
        return tuple(i in cs for cs in self.behind)

    def holds(self, ins, prev, nxt):
        kind = ins[1]
        if kind == 'behind':
            v = ins[3] if prev is None else prev[ins[2]]
            return v if ins[4] else not v
        if kind == 'ahead':
            v = ins[3] if nxt is None else nxt in ins[2]
            return v if ins[4] else not v
        if kind == 'word':
            a = False if prev is None else prev[ins[2]]
            b = nxt is not None and nxt in ins[3]
            return (a != b) == ins[4]
        if kind == 'dollar':
            # end of text, or before a final line break: the latter needs two
            # characters of lookahead
            if nxt is None:
                return True
            if nxt in NL:
                raise Unsupported('$ before the last line break')
            return False
        raise Unsupported(kind)

    def closure(self, threads, prev, nxt):
        """Ordered closure of [(pc, last group)] before reading nxt."""
        out, seen = [], set()
        stack = list(reversed(threads))
        while stack:
            pc, g = stack.pop()
            if (pc, g) in seen:
                continue
            seen.add((pc, g))
            ins = self.code[pc]
            op = ins[0]
            if op == 'jmp':
                stack.append((ins[1], g))
            elif op == 'split':
                stack.append((ins[2], g))
                stack.append((ins[1], g))
            elif op == 'save':
                stack.append((pc + 1, ins[1]))
            elif op == 'assert':
                if self.holds(ins, prev, nxt):
                    stack.append((pc + 1, g))
            else:
                out.append((pc, g))
        return out

    # leftmost-first machine: state is (prev signature, ordered threads)

    def start(self, prev=None):
        return (prev, ((0, 0),))

    def step(self, state, nxt):
        """Before reading nxt (None: end of text).  Returns (match group or
        None, next state or None when no thread is left)."""
        key = (state, nxt)
        r = self.closures.get(key)
        if r is None:
            prev, threads = state
            match, out, seen = None, [], set()
            for pc, g in self.closure(list(threads), prev, nxt):
                ins = self.code[pc]
                if ins[0] == 'match':
                    match = g
                    break
                if nxt is not None and nxt in ins[1]:
                    t = (pc + 1, g)
                    if t not in seen:
                        seen.add(t)
                        out.append(t)
            ns = (self.sig(nxt), tuple(out)) if out else None
            r = self.closures[key] = (match, ns)
        return r

    def tell_apart(self):
        """Classes of alphabet indices no instruction distinguishes."""
        sets = [ins[1] for ins in self.code if ins[0] == 'char']
        for ins in self.code:
            if ins[0] == 'assert':
                sets += [x for x in ins[1:] if isinstance(x, frozenset)]
                if ins[1] == 'dollar':
                    sets.append(NL)
        return sets + self.behind


def classes(sets):
    groups = {}
    for i in range(N):
        groups.setdefault(tuple(i in s for s in sets), []).append(i)
    return list(groups.values())


_UIDS, _MEMO = {}, {}


class Lang(object):
    """A regular language: complete deterministic automaton."""

    def __init__(self, trans, accept, start=0):
        # keep the reachable part
        order, seen = [start], {start: 0}
        for s in order:
            for t in trans[s]:
                if t not in seen:
                    seen[t] = len(order)
                    order.append(t)
        self.trans = [[seen[t] for t in trans[s]] for s in order]
        self.accept = [accept[s] for s in order]
        self.minimise()
        self._live = self._uid = None

    def minimise(self):
        part = [1 if a else 0 for a in self.accept]
        # characters that lead to the same places are one
        cols, which = [], {}
        back = []
        for c in zip(*self.trans):
            k = which.setdefault(c, len(cols))
            if k == len(cols):
                cols.append(c)
            back.append(k)
        rows = list(zip(*cols))
        while True:
            sigs, new = {}, []
            for s, row in enumerate(rows):
                k = (part[s],) + tuple([part[t] for t in row])
                new.append(sigs.setdefault(k, len(sigs)))
            if len(sigs) == len(set(part)):
                break
            part = new
        # renumber with the start first, in the order of the characters
        ren = {part[0]: 0}
        order = [0]
        for s in order:
            for t in rows[s]:
                if part[t] not in ren:
                    ren[part[t]] = len(order)
                    order.append(t)
        trans, accept = [], []
        for s in order:
            small = [ren[part[t]] for t in rows[s]]
            trans.append([small[k] for k in back])
            accept.append(self.accept[s])
        self.trans, self.accept = trans, accept

    @property
    def uid(self):
        """The same number for the same language."""
        if self._uid is None:
            k = (tuple(map(tuple, self.trans)), tuple(self.accept))
            self._uid = _UIDS.setdefault(k, len(_UIDS))
        return self._uid

    def memo(self, op, other, f):
        k = (op, self.uid, other.uid)
        r = _MEMO.get(k)
        if r is None:
            if len(_MEMO) > 20000:
                _MEMO.clear()
            r = _MEMO[k] = f()
        return r

    def __eq__(self, other):
        return isinstance(other, Lang) and self.trans == other.trans and \
            self.accept == other.accept

    def __hash__(self):
        return hash(tuple(self.accept))

    @property
    def live(self):
        if self._live is None:
            live = set(s for s, a in enumerate(self.accept) if a)
            changed = True
            while changed:
                changed = False
                for s, row in enumerate(self.trans):
                    if s not in live and any(t in live for t in row):
                        live.add(s)
                        changed = True
            self._live = live
        return self._live

    def product(self, other, f):
        pairs, idx, trans, accept = [(0, 0)], {(0, 0): 0}, [], []
        for a, b in pairs:
            row = []
            cache = {}
            for x, y in zip(self.trans[a], other.trans[b]):
                k = idx.get((x, y))
                if k is None:
                    k = idx[(x, y)] = len(pairs)
                    pairs.append((x, y))
                row.append(k)
            trans.append(row)
            accept.append(f(self.accept[a], other.accept[b]))
        return Lang(trans, accept)

    def __and__(self, other):
        return self.memo('and', other, lambda: self.product(
            other, lambda a, b: a and b))

    def __or__(self, other):
        return self.memo('or', other, lambda: self.product(
            other, lambda a, b: a or b))

    def __sub__(self, other):
        return self.memo('sub', other, lambda: self.product(
            other, lambda a, b: a and not b))

    def __invert__(self):
        return Lang(self.trans, [not a for a in self.accept])

    def empty(self):
        return 0 not in self.live

    def contains(self, s):
        q = 0
        for c in s:
            q = self.trans[q][char_index(c)]
        return self.accept[q]

    def subset(self, other):
        return (self - other).empty()

    def shortest(self):
        """A shortest member, or None; readable characters preferred."""
        if self.empty():
            return None
        from collections import deque
        order = _pref
        prev = {0: None}
        dq = deque([0])
        while dq:
            s = dq.popleft()
            if self.accept[s]:
                out = []
                while prev[s] is not None:
                    s, c = prev[s]
                    out.append(ALPHABET[c])
                return ''.join(reversed(out))
            for c in order:
                t = self.trans[s][c]
                if t not in prev and t in self.live:
                    prev[t] = (s, c)
                    dq.append(t)
        return None

    def members(self, n=4):
        """Representative members: a shortest one through every accepting
        state, up to n."""
        out = []
        for q in range(len(self.accept)):
            if self.accept[q]:
                w = Lang(self.trans, [s == q for s in
                                      range(len(self.accept))]).shortest()
                if w is not None and w not in out:
                    out.append(w)
        return sorted(out, key=len)[:n]

    def single(self):
        w = self.shortest()
        if w is None:
            return None
        # an alphabet character outside ASCII stands for many
        if any(ord(c) > 127 for c in w):
            return None
        return w if (self - literal(w)).empty() else None

    def len_bounds(self):
        w = self.shortest()
        if w is None:
            return (0, 0)
        lo = len(w)
        # longest: a live cycle means unbounded
        depth = {0: 0}
        cur, n = {0}, 0
        while cur and n <= len(self.trans) + 1:
            hi = n if any(self.accept[s] for s in cur) else None
            if hi is not None:
                last = hi
            cur = {t for s in cur for t in self.trans[s] if t in self.live}
            n += 1
        return (lo, None if cur else last)

    def may_contain(self, c):
        return not self.split_contains(c)[0].empty()

    def split_contains(self, c):
        l = from_regex(re.escape(c), re.DOTALL, 'search')
        return self & l, self - l

    def split_regex(self, pat, name):
        try:
            l = from_regex(pat, 0, name)
        except Unsupported:
            return None
        return self & l, self - l

    def split_method(self, name, args):
        try:
            if name in ('startswith', 'endswith'):
                if len(args) != 1:
                    return None
                opts = args[0] if isinstance(args[0], tuple) else args
                pat = '|'.join(re.escape(o) for o in opts)
                l = from_regex('(?s:%s)' % (
                    '(?:%s).*' % pat if name == 'startswith'
                    else '.*(?:%s)' % pat), 0, 'fullmatch')
            elif args:
                return None
            elif name in ('isalpha', 'isdigit', 'isalnum', 'isspace',
                          'isdecimal', 'isnumeric', 'isprintable'):
                ok = [i for i, c in enumerate(ALPHABET) if getattr(c, name)()]
                l = star(ok) if name == 'isprintable' else plus(ok)
            elif name in ('islower', 'isupper'):
                other = 'isupper' if name == 'islower' else 'islower'
                bad = {i for i, c in enumerate(ALPHABET)
                       if getattr(c, other)() or c.istitle() and
                       not getattr(c, name)() and c.isupper() is False
                       and c.islower() is False}
                good = {i for i, c in enumerate(ALPHABET)
                        if getattr(c, name)()}
                rest = set(range(N)) - bad - good
                # 0: none yet, 1: some cased, 2: dead
                rows = [[2 if i in bad else 1 if i in good else q
                         for i in range(N)] for q in (0, 1)]
                l = Lang(rows + [[2] * N], [False, True, False])
            elif name == 'isidentifier':
                a = [i for i, c in enumerate(ALPHABET) if c.isidentifier()]
                b = [i for i, c in enumerate(ALPHABET)
                     if ('a' + c).isidentifier()]
                l = Lang([[1 if i in a else 2 for i in range(N)],
                          [1 if i in b else 2 for i in range(N)],
                          [2] * N], [False, True, False])
            else:
                return None
        except Unsupported:
            return None
        return self & l, self - l

    def first_chars(self):
        """Language of the first characters of non-empty members."""
        ok = [i for i in range(N) if self.trans[0][i] in self.live]
        return Lang([[1 if i in ok else 2 for i in range(N)],
                     [2] * N, [2] * N], [False, True, False])

    def edge_chars(self, chars):
        """May a member start or end with one of these characters?"""
        if chars is None:
            chars = [c for c in ALPHABET if c.isspace()]
        for c in chars:
            e = re.escape(c)
            l = from_regex('(?s:%s.*|.*%s)' % (e, e), 0, 'fullmatch')
            if not (self & l).empty():
                return True
        return False


_pref = [INDEX[c] for c in 'abcdxyzABCD0123456789_ ' if c in INDEX]
_pref += [i for i in range(32, 127) if i not in _pref]
_pref += [i for i in range(N) if i not in _pref]


def star(idx):
    idx = set(idx)
    return Lang([[0 if i in idx else 1 for i in range(N)], [1] * N],
                [True, False])


def plus(idx):
    idx = set(idx)
    return Lang([[1 if i in idx else 2 for i in range(N)],
                 [1 if i in idx else 2 for i in range(N)], [2] * N],
                [False, True, False])


def literal(w):
    rows, n = [], len(w)
    for k in range(n):
        i = char_index(w[k])
        rows.append([k + 1 if j == i else n + 1 for j in range(N)])
    rows += [[n + 1] * N, [n + 1] * N]
    return Lang(rows, [False] * n + [True, False])


ANY = Lang([[0] * N], [True])
NONE = Lang([[0] * N], [False])
_cache = {}


def from_regex(pat, flags=0, how='fullmatch'):
    key = (pat.pattern if isinstance(pat, re.Pattern) else pat,
           pat.flags if isinstance(pat, re.Pattern) else flags, how)
    if key in _cache:
        return _cache[key]
    p = Prog(pat, flags)
    groups = classes(p.tell_apart())
    SINK = 'all'
    start = (None, frozenset([(0, 0)]))
    states, idx, trans, accept = [start], {start: 0}, [], []

    def number(s):
        if s not in idx:
            idx[s] = len(states)
            states.append(s)
        return idx[s]

    for st in states:
        if st == SINK:
            trans.append([idx[SINK]] * N)
            accept.append(True)
            continue
        prev, threads = st
        row = [None] * N
        end = p.closure(sorted(threads), prev, None)
        acc = any(p.code[pc][0] == 'match' for pc, g in end)
        for grp in groups:
            i = grp[0]
            cl = p.closure(sorted(threads), prev, i)
            done = any(p.code[pc][0] == 'match' for pc, g in cl)
            if done and how in ('match', 'search'):
                t = number(SINK)
            else:
                nxt = frozenset((pc + 1, 0) for pc, g in cl
                                if p.code[pc][0] == 'char' and
                                i in p.code[pc][1])
                if how == 'search':
                    nxt |= {(0, 0)}
                t = number((p.sig(i), nxt))
            for j in grp:
                row[j] = t
        trans.append(row)
        accept.append(acc)
    l = _cache[key] = Lang(trans, accept)
    return l


NONEMPTY = from_regex('(?s:.+)')
SIGMA = from_regex('(?s:.)')
EMPTY_TEXT = literal('')


def concat(a, b):
    """Language of a member of a followed by a member of b."""
    return a.memo('cat', b, lambda: _concat(a, b))


def _concat(a, b):
    start = (0, frozenset([0]) if a.accept[0] else frozenset())
    states, idx, trans, accept = [start], {start: 0}, [], []
    for p, qs in states:
        row = []
        memo = {}
        for i in range(N):
            t = a.trans[p][i]
            k = (t, tuple(sorted({b.trans[q][i] for q in qs})))
            if k not in memo:
                u = frozenset(k[1]) | (frozenset([0]) if a.accept[t]
                                       else frozenset())
                s = (t, u)
                if s not in idx:
                    idx[s] = len(states)
                    states.append(s)
                memo[k] = idx[s]
            row.append(memo[k])
        trans.append(row)
        accept.append(any(b.accept[q] for q in qs))
    return Lang(trans, accept)


def hom_inverse(l, f):
    """Texts whose image under the per-character map f is in l."""
    trans = []
    for row_state in range(len(l.trans)):
        row = []
        for c in ALPHABET:
            q = row_state
            for d in f(c):
                q = l.trans[q][char_index(d)]
            row.append(q)
        trans.append(row)
    return Lang(trans, list(l.accept))


def _power(n):
    return from_regex('(?s:.{%d})' % n)


def _upto(n):
    return from_regex('(?s:.{0,%d})' % n)


def reverse_lang(l):
    start = frozenset(s for s, a in enumerate(l.accept) if a)
    states, idx, trans, accept = [start], {start: 0}, [], []
    pred = {}
    for s, row in enumerate(l.trans):
        for i, t in enumerate(row):
            pred.setdefault((t, i), set()).add(s)
    for st in states:
        row, memo = [], {}
        for i in range(N):
            t = frozenset(x for s in st for x in pred.get((s, i), ()))
            if t not in idx:
                idx[t] = len(states)
                states.append(t)
            row.append(idx[t])
        trans.append(row)
        accept.append(0 in st)
    return Lang(trans, accept)


def preimage(op, args):
    """The map from a language to the texts the operation sends into it."""
    cache = {}

    def pre(l):
        k = id(l)
        if k not in cache:
            cache[k] = (l, compute(l))
        return cache[k][1]

    def compute(l):
        if op in ('lower', 'upper', 'casefold', 'swapcase'):
            return hom_inverse(l, lambda c: getattr(c, op)())
        if op == 'replace':
            old, new = args
            return hom_inverse(l, lambda c: new if c == old else c)
        if op in ('strip', 'lstrip', 'rstrip'):
            cs = args[0]
            if cs is None:
                cs = [c for c in ALPHABET if c.isspace()]
            w = star([char_index(c) for c in cs])
            inner = ~from_regex('(?s:%s)' % '|'.join(
                x for c in cs for x in
                ([re.escape(c) + '.*'] if op != 'rstrip' else []) +
                (['.*' + re.escape(c)] if op != 'lstrip' else [])))
            core = l & inner
            out = core
            if op != 'rstrip':
                out = concat(w, out)
            if op != 'lstrip':
                out = concat(out, w)
            return out
        if op == 'slice':
            a, b = args
            a = a or 0
            if b is None and a >= 0:            # s[a:]
                out = concat(_power(a), l)
                if l.contains(''):
                    out = out | _upto(a)
                return out
            if b is None:                       # s[-a:]
                n = -a
                return concat(ANY, l & _power(n)) | (l & _upto(n))
            if a == 0 and b >= 0:               # s[:b]
                return concat(l & _power(b), ANY) | (l & _upto(b))
            if a == 0 and b < 0:                # s[:-b]
                out = concat(l, _power(-b))
                if l.contains(''):
                    out = out | _upto(-b)
                return out
            if a > 0 and b < 0:
                mid = preimage('slice', [0, b])(l)
                out = concat(_power(a), l)
                # s[a:][:b]
                return preimage('slice', [a, None])(
                    preimage('slice', [0, b])(l))
            if a > 0 and b >= a:
                return preimage('slice', [a, None])(
                    preimage('slice', [0, b - a])(l))
            if a < 0 and b < 0:
                return preimage('slice', [0, b])(
                    preimage('slice', [a - b, None])(l)) if a < b else (
                        ANY if l.contains('') else NONE)
        raise Unsupported(op)
    return pre
