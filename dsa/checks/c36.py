"""C36: every form of a datashape gives the same one."""
from itertools import product
from ..explore import Case, Violation
from ..values import *
from .common import *
from .c17 import CONTEXTS

EXPLAIN = (
    'Abstract interpretation of dshape on the forms that describe one '
    'datashape: the datashape itself, its parts as a list and as a tuple, '
    'its parts grouped into datashapes of their own at every place, '
    'and for measures the measure alone; every class with unknown '
    'parameters below up to four dimensions of every kind, in every '
    'construct, and long lists of dimensions.  The results must be equal '
    'with the same text, hash, dimensions and measure, a result given again '
    'must come back, and dshapes must give the results for its arguments in '
    'their order.')
FLOOR = {'quick': 900, 'thorough': 1800}
HISTORIES = False

DIM = {
    'F': lambda L, k: L.new('Fixed', L.int('n%d' % k, 0)),
    'V': lambda L, k: L.new('Var'),
    'T': lambda L, k: L.new('TypeVar', L.text('T%d' % k, UPPER)),
    'E': lambda L, k: L.new('Ellipsis'),
}


def same(L, got, x, dims, m, what, given=None):
    # only a measure given alone may come back as it is
    L.check(L.isinst(got, 'DataShape') or got is given,
            '%s is %s' % (what, L.show(got)))
    if got is m and L.isinst(m, 'Option') and L.items(L.attr(m, 'shape')) \
            and not L.eq(got, x) and not L.eq(x, got):
        raise Violation('%s is %s, which is not equal to its datashape' % (
            what, L.show(got)), 'option-with-dimensions')
    L.check(L.eq(got, x) and L.eq(x, got) and not L.i.truth(
        L.i.compare('!=', got, x)), '%s is %s, not %s' % (
            what, L.show(got), L.show(x)))
    L.check(same_hash(L, hash_of(L, got), hash_of(L, x)), '%s has another hash than %s' % (
        what, L.show(x)))
    L.check(L.eq(L.attr(got, 'measure'), m), '%s has the measure %s' % (
        what, L.show(L.attr(got, 'measure'))))
    if L.isinst(got, 'DataShape'):
        ps = L.items(L.attr(got, 'parameters'))
        L.check(len(ps) == len(dims) + 1 and all(
            L.eq(p, q) for p, q in zip(ps, list(dims) + [m])),
            '%s has the parts %s' % (what, [L.show(p) for p in ps]))
    L.check(L.eq(L.str(got), L.str(x)), '%s prints as %s' % (
        what, L.show(L.str(got))))
    again = L.call('dshape', got)
    L.check(again is got or L.isinst(again, 'DataShape') and L.eq(again, got)
            and L.eq(got, again), 'dshape of %s, which is %s, is %s' % (
                what, L.show(got), L.show(again)))


def forms(dims, make):
    def f(L):
        ds = [DIM[c](L, k) for k, c in enumerate(dims)]
        m = make(L)
        x = L.new('DataShape', *(ds + [m]))
        same(L, L.call('dshape', x), x, ds, m, 'dshape(%s)' % L.show(x))
        parts = ds + [m]
        same(L, L.call('dshape', L.list(parts)), x, ds, m,
             'dshape of a list of the parts of %s' % L.show(x))
        same(L, L.call('dshape', tuple(parts)), x, ds, m,
             'dshape of a tuple of the parts of %s' % L.show(x))
        for k in range(len(parts)):
            tail = L.new('DataShape', *parts[k:])
            same(L, L.call('dshape', L.list(parts[:k] + [tail])), x, ds, m,
                 'dshape of %d parts and the rest of %s' % (k, L.show(x)))
            inner = L.new('DataShape', tail)
            same(L, L.call('dshape', tuple(parts[:k] + [inner])), x, ds, m,
                 'dshape of %d parts and the rest, twice wrapped, of %s' % (
                     k, L.show(x)))
        if not dims:
            same(L, L.call('dshape', m), x, ds, m, 'dshape(%s)' % L.show(m),
                 m)
    return f


def shape_of(s, ctx=None):
    def make(L):
        x = s.make(L)[1]
        if ctx:
            x = CONTEXTS[ctx][0](L, L.new('DataShape', x))
        return x
    return make


def below(dims, ctx):
    def make(L):
        return CONTEXTS[ctx][0](L, L.new('DataShape', *[
            DIM[c](L, 10 + k) for k, c in enumerate(dims)] + [sk(L)]))
    return make


TEXTS = ['int32', '3 * int32', 'var * string', '{a: int32}', '?date',
         '... * T', 'A * B * float64', '(int8) -> bool', "string[7, 'A']",
         '2 * 3 * {x: ?int32, y: var * json}', 'decimal[5, 2]',
         '(int32, var * T)', 'map[string, int32]', 'timedelta[unit="s"]']


def several(args):
    """dshapes gives what dshape gives, in order."""
    def f(L):
        xs = []
        for k, a in enumerate(args):
            if isinstance(a, str):
                xs.append(a)
            else:
                xs.append(a(L, k))
        got = L.items(L.call('dshapes', *xs))
        L.check(len(got) == len(xs), 'dshapes of %d gives %d' % (
            len(xs), len(got)))
        for k, (g, x) in enumerate(zip(got, xs)):
            w = L.call('dshape', x)
            L.check(L.eq(g, w) and L.eq(w, g) and cls_name(g.cls) ==
                    cls_name(w.cls), 'dshapes of %s gives %s at %d' % (
                        [L.show(y) for y in xs], L.show(g), k))
    return f


def one_wrong(args, where, bad):
    def f(L):
        xs = list(args)
        xs.insert(where, bad)
        kind, v = L.outcome('dshapes', *xs)
        kind2, v2 = L.outcome('dshape', bad)
        L.check(kind == 'raise' and kind2 == 'raise' and v.cls is v2.cls,
                'dshapes of %s %s, but dshape of %s %s' % (
                    xs, 'gives ' + L.show(v) if kind == 'ret' else
                    'raises ' + L.exc_text(v), L.show(bad),
                    'gives ' + L.show(v2) if kind2 == 'ret' else
                    'raises ' + L.exc_text(v2)))
    return f


GIVEN = [lambda L, k: L.new('Option', sk(L, 'A%d' % k)),
         lambda L, k: L.new('DataShape', L.new('Fixed', L.int('n%d' % k, 0)),
                            sk(L, 'B%d' % k)),
         lambda L, k: sk(L, 'C%d' % k),
         lambda L, k: L.list([L.new('Var'), sk(L, 'D%d' % k)]),
         lambda L, k: (L.new('Fixed', L.int('m%d' % k, 0)),
                       L.new('Time', L.text('tz%d' % k))),
         lambda L, k: L.new('Tuple', L.list([sk(L, 'E%d' % k)]))]


def cases(L, tier):
    deep = tier == 'thorough'
    some = ['', 'F', 'V', 'T', 'E', 'FV', 'EF', 'TFV', 'FFFF', 'VTEF']
    if deep:
        some = sorted({''.join(p) for n in range(5)
                       for p in product('FVTE', repeat=n)
                       if p.count('E') < 2})
    for s in measures():
        for d in some if deep else some:
            yield Case('%s below %r' % (s.name, d), forms(d, shape_of(s)),
                       relaxed=True)
        for c in CONTEXTS:
            if c == 'below fixed':
                continue
            yield Case('%s in %s' % (s.name, c), forms('', shape_of(s, c)),
                       relaxed=True)
            yield Case('%s in %s, two dimensions' % (s.name, c),
                       forms('FV', shape_of(s, c)), relaxed=True)
    for c in CONTEXTS:
        for d in ('F', 'VT', 'FE'):
            for e in ('', 'V', 'TF'):
                yield Case('%s in %s below %r' % (d, c, e),
                           forms(e, below(d, c)), relaxed=True)
    for n in (6, 9, 13):
        for k in range(n):
            for c in 'VTE':
                d = 'F' * k + c + 'F' * (n - 1 - k)
                yield Case('below %s' % d, forms(d, lambda L: sk(L)),
                           relaxed=True)
    for n in (0, 1, 2, 3, 5, 8, 14):
        for turn in range(0, len(TEXTS), 1 if n in (2, 3) else 5):
            yield Case('dshapes of %d texts from %d' % (n, turn), several(
                [TEXTS[(turn + k) % len(TEXTS)] for k in range(n)]),
                relaxed=True)
        for turn in range(len(GIVEN)):
            yield Case('dshapes of %d from %d' % (n, turn), several(
                [GIVEN[(turn + k) % len(GIVEN)] for k in range(n)]),
                relaxed=True)
    for n in (2, 3, 5, 9):
        for k in range(n - 1):
            xs = TEXTS[:n - 1]
            xs.insert(k + 1, xs[k // 2])
            yield Case('dshapes of %d, one twice, at %d' % (n, k + 1),
                       several(xs), relaxed=True)
            ys = list(xs)
            ys[k + 1] = lambda L, j, t=xs[k // 2]: L.call('dshape', t)
            yield Case('dshapes of %d, one in two forms, at %d' % (n, k + 1),
                       several(ys), relaxed=True)
    for args in (['int32'], ['int32', 'var * T'], TEXTS[:6]):
        for w in range(len(args) + 1):
            for bad in ('nosuch', '', 3, None, '... * ... * int32'):
                yield Case('dshapes with %r at %d of %d' % (
                    bad, w, len(args) + 1), one_wrong(args, w, bad),
                    relaxed=True)
