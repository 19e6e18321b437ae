"""C35: collecting the parts of a datashape."""
from itertools import product
from ..explore import Case, Violation
from ..values import *
from .common import *

EXPLAIN = (
    'Abstract interpretation of collect (and the search `has`) on trees of '
    'types: every construct in every construct two and three deep, below '
    'dimensions, at each place of long records, tuples, functions and lists '
    'of dimensions, and lists and tuples of types.  The predicate is an '
    'arbitrary one: it holds for a chosen set of the parts, known by '
    'identity, and answers with any true or false value.  The result must '
    'be the outermost parts for which it holds, in reading order.')
FLOOR = {'quick': 600, 'thorough': 750}
HISTORIES = False
MOD = 'datashape.util'


class Node(object):
    """A part that a search can find, or (obj None) what only holds parts."""

    def __init__(self, obj, kids=()):
        self.obj, self.kids = obj, list(kids)

    def all(self):
        out = [self] if self.obj is not None else []
        for k in self.kids:
            out += k.all()
        return out

    def outermost(self, chosen):
        if self.obj is not None and self in chosen:
            return [self]
        return [n for k in self.kids for n in k.outermost(chosen)]


DIM = {
    'F': lambda L, k: L.new('Fixed', L.int('n%d' % k, 0)),
    'V': lambda L, k: L.new('Var'),
    'T': lambda L, k: L.new('TypeVar', L.text('T%d' % k, UPPER)),
    'E': lambda L, k: L.new('Ellipsis'),
}


def leaf(L, count=[0]):
    count[0] += 1
    k = count[0] % 5
    return Node(sk(L, 'leaf%d' % count[0]) if k < 2 else
                L.new('String', L.int('size%d' % count[0], 0), 'U8')
                if k == 2 else L.new('Decimal', 5, 2) if k == 3 else
                L.new('DateTime', L.text('tz%d' % count[0])))


def shape(L, dims, m):
    """m below the dimensions; the datashape itself is transparent."""
    ds = [Node(DIM[c](L, k)) for k, c in enumerate(dims)]
    x = L.new('DataShape', *[d.obj for d in ds] + [m.obj])
    n = Node(None, ds + [m])
    n.ds = x
    return n


def val(L, n):
    """What is put in a construct for a part."""
    if n.obj is not None:
        return L.new('DataShape', n.obj)
    return n.ds


CTX = {
    'record': lambda L, xs: L.new('Record', L.list(
        [('f%d' % k, x) for k, x in enumerate(xs)])),
    'tuple': lambda L, xs: L.new('Tuple', L.list(xs)),
    'function': lambda L, xs: L.new('Function', *xs),
    'map': lambda L, xs: L.new('Map', xs[0], xs[1]),
    'option': lambda L, xs: L.new('Option', xs[0]),
    'units': lambda L, xs: L.new('Units', 'metre', xs[0]),
    'categorical': lambda L, xs: L.new(
        'Categorical', L.list(['red', 'green']), xs[0], True),
}
ARITY = {'map': (2,), 'option': (1,), 'units': (1,), 'categorical': (1,)}


def construct(L, kind, kids):
    return Node(CTX[kind](L, [val(L, k) for k in kids]), kids)


def tree(L, spec):
    """'' is a leaf; (dims, spec) a shape; (kind, spec, ...) a construct."""
    if spec == '':
        return leaf(L)
    if spec[0] == 'dims':
        return shape(L, spec[1], tree(L, spec[2]))
    # categories have a scalar type, without dimensions
    return construct(L, spec[0], [
        tree(L, s[2] if spec[0] == 'categorical' and s[:1] == ('dims',)
             else s) for s in spec[1:]])


TRUE = [True, 1, 'x', (0,), -1, 0.5]
FALSE = [False, 0, '', (), None, 0.0]


def find(L, top, x, what, chosen, style):
    """The outermost of the chosen parts, in order."""
    objs = [n.obj for n in chosen]
    want = [n.obj for n in top.outermost(chosen)]

    def run(i, a, k):
        o = i.res(a[0])
        if any(o is p for p in objs):
            return TRUE[style % len(TRUE)]
        return FALSE[style % len(FALSE)]
    got = L.items(L.call(L.api('collect', MOD), VBuiltin('pred', run), x))
    got = [L.i.res(g) for g in got]
    L.check(len(got) == len(want) and all(
        g is w for g, w in zip(got, want)),
        'collect in %s: %s, not %s' % (
            what, [L.show(g) for g in got], [L.show(w) for w in want]))


def searches(L, top, x):
    what = L.show(x)
    parts = top.all()
    sets = [[n] for n in parts] + [[], parts, parts[1:], parts[::2],
                                   [n for n in parts if not n.kids]]
    for n in parts:
        if n.kids:
            inner = n.all()
            sets.append([inner[0], inner[-1]])
            sets.append(inner[1:])
    for k, s in enumerate(sets):
        find(L, top, x, what, s, k)
    for c in ('Fixed', 'Var', 'Ellipsis', 'TypeVar', 'String', 'Decimal',
              'Record', 'Tuple', 'Function', 'Map', 'Option', 'Units',
              'Categorical', 'DateTime', 'Null'):
        cls = L.api(c)
        want = any(L.isinst(n.obj, c) for n in parts)
        got = L.call(L.api('has', MOD), cls, x)
        L.check(got is want, 'has(%s, %s) is %s' % (c, what, L.show(got)))


def whole(spec, dims=''):
    def f(L):
        top = tree(L, spec)
        x = val(L, top)
        if dims:
            top = shape(L, dims, top if top.obj is not None else Node(
                L.new('Tuple', L.list([x])), [top]))
            x = top.ds
        searches(L, top, x)
        if not dims and top.obj is not None:
            searches(L, top, top.obj)
    return f


def repeated(kind, n, pattern):
    """Some of the parts are equal to others, or the same."""
    def f(L):
        one, two = L.new('Decimal', 7, 3), L.new('Decimal', 7, 3)
        objs = {'a': one, 'A': two, 'b': L.api('int32'), 'v': None}
        kids = []
        for k in range(n):
            c = pattern[k % len(pattern)]
            kids.append(shape(L, 'V', Node(L.api('int32'))) if c == 'v'
                        else Node(objs[c]))
        top = construct(L, kind, kids)
        x = L.new('DataShape', top.obj)
        for c, m in (('Decimal', one), ('CType', objs['b'])):
            cls = L.api(c)
            want = [k.obj for k in top.all() if L.isinst(k.obj, c)]
            got = L.items(L.call(L.api('collect', MOD), VBuiltin(
                'isinstance', lambda i, a, k, cls=cls:
                i.isinstance_(i.res(a[0]), cls)), x))
            L.check(len(got) == len(want) and all(
                L.eq(g, w) for g, w in zip(got, want)),
                'collect finds %d of %d equal parts in %s' % (
                    len(got), len(want), L.show(x)))
    return f


def sequence(specs, kind):
    """A list or a tuple of types, perhaps in another."""
    def f(L):
        ns = [tree(L, s) for s in specs]
        xs = [n.obj if n.obj is not None and k % 2 else val(L, n)
              for k, n in enumerate(ns)]
        x = {'list': lambda: L.list(xs), 'tuple': lambda: tuple(xs),
             'nested': lambda: L.list([tuple(xs[:1]), L.list(xs[1:])]),
             'deep': lambda: (L.list([tuple(xs)]),)}[kind]()
        searches(L, Node(None, ns), x)
    return f


def rest(kind, inner, place=0):
    n = ARITY.get(kind, (2,))[0]
    out = [''] * n
    out[place % n] = inner
    return (kind,) + tuple(out)


def cases(L, tier):
    deep = tier == 'thorough'
    for d in ('', 'F', 'V', 'FVT', 'EF', 'TTVF', 'FFFFFF', 'VFTVFTVFT'):
        yield Case('leaf below %r' % d, whole(('dims', d, '')), relaxed=True)
        for c in CTX:
            yield Case('%s of %r' % (c, d), whole(
                rest(c, ('dims', d, ''))), relaxed=True)
            yield Case('%s below %r' % (c, d), whole(
                rest(c, ''), d or 'F'), relaxed=True)
    for a, b in product(CTX, CTX):
        for p in (0, 1):
            for q in (0, 1):
                if (p and a in ARITY and a != 'map') or (
                        q and b in ARITY and b != 'map'):
                    continue
                for d in ('', 'VF'):
                    s = rest(a, rest(b, ('dims', d, ''), q), p)
                    yield Case('%s %d in %s %d over %r' % (b, q, a, p, d),
                               whole(s), relaxed=True)
    for k, (a, b, c) in enumerate(product(CTX, CTX, CTX)):
        if deep or k % 2:
            s = rest(a, ('dims', 'F' * (k % 3), rest(b, rest(
                c, ('dims', 'VFT'[:k % 4], ''), k), k // 2)), k // 3)
            yield Case('%s in %s in %s' % (c, b, a), whole(s), relaxed=True)
    for kind in ('record', 'tuple', 'function'):
        for n in (1, 3, 6, 9, 17):
            yield Case('%s of %d' % (kind, n), whole((kind,) + ('',) * n),
                       relaxed=True)
            if n in (3, 6, 9):
                for w in range(n):
                    xs = [''] * n
                    xs[w] = ('record', ('dims', 'V', ''), '')
                    yield Case('%s of %d, a record at %d' % (kind, n, w),
                               whole((kind,) + tuple(xs)), relaxed=True)
    for kind in ('record', 'tuple', 'function'):
        for n in (2, 3, 6, 9):
            for pat in ('a', 'aA', 'ab', 'Aab', 'vb', 'bva', 'vvab'):
                yield Case('%s of %d from %s' % (kind, n, pat),
                           repeated(kind, n, pat), relaxed=True)
    for kind in ('list', 'tuple', 'nested', 'deep'):
        for ss in (('',), ('', ''), (('dims', 'FV', ''), ''),
                   ('', ('record', '', ('dims', 'V', ''))),
                   (('tuple', ''), ('option', ''), ('map', '', '')),
                   ('', ('function', '', ('tuple', '', '')), '', '')):
            yield Case('%s of %s' % (kind, ss), sequence(ss, kind),
                       relaxed=True)
        for n in (6, 11):
            yield Case('%s of %d types' % (kind, n),
                       sequence(('',) * n, kind), relaxed=True)
