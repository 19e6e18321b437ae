"""C32: rebuilding a datashape from its parameters."""
from ..explore import Case, Violation
from ..values import *
from .common import *
from .c03 import compare, contexts

EXPLAIN = (
    'Abstract interpretation of every class of datashape element with '
    'unknown parameters, alone, as a datashape with dimensions and inside '
    'every composite: its class called with its parameters, with those '
    'parameters rebuilt in the same way first, and twice in a row.  The '
    'result must be of the same class, equal in both directions, and agree '
    'in hash, text, parameters, every public attribute and the answer of '
    'every predicate and conversion.  Sized types are rebuilt only as parts '
    '(a second type of the same name is refused).')
FLOOR = {'quick': 400, 'thorough': 800}
HISTORIES = False


def params(L, x):
    p = L.i.res(L.i.getattr_(x, 'parameters'))
    if not isinstance(p, tuple):
        raise Violation('parameters of %s are %s' % (L.show(x), L.show(p)))
    return list(p)


def rebuild(L, x):
    try:
        return L.i.res(L.i.call(x.cls, params(L, x), {}))
    except Raised as e:
        raise Violation('%s from its parameters raises %s' % (
            L.show(x), L.exc_text(e.exc)))


def deep(L, v):
    """v with everything in it rebuilt from its parameters."""
    i = L.i
    v = i.res(v)
    if isinstance(v, tuple):
        return tuple(deep(L, x) for x in v)
    if isinstance(v, VList):
        return i.list([deep(L, x) for x in v.items])
    if isinstance(v, VObj) and isinstance(v.cls, VClass) and \
            L.isinst(v, 'Mono'):
        if sized(v):
            return v
        p = [deep(L, x) for x in params(L, v)]
        try:
            return i.res(i.call(v.cls, p, {}))
        except Raised as e:
            raise Violation('%s from its rebuilt parameters raises %s' % (
                L.show(v), L.exc_text(e.exc)))
    return v


def sized(v):
    return any(isinstance(c, VClass) and c.name == 'CType'
               for c in v.cls.mro)


WAYS = {
    'parameters': rebuild,
    'rebuilt parameters': deep,
    'parameters twice': lambda L, x: rebuild(L, rebuild(L, x)),
}


def case(build, how):
    def f(L):
        x = build(L)
        y = WAYS[how](L, x)
        what = 'from %s, %s' % (how, L.show(x))
        compare(L, x, y, what)
        px, py = params(L, x), params(L, y)
        L.check(len(px) == len(py), '%s has parameters %s' % (
            what, L.show(tuple(py))))
        for a, b in zip(px, py):
            L.check(L.eq(a, b), '%s has parameters %s' % (
                what, L.show(tuple(py))))
    return f


def cases(L, tier):
    for s in shapes():
        for cname, wants, ctx in contexts(L):
            if wants and not s.measure:
                continue
            if cname == 'alone' and s.name in SCALARS:
                continue
            for how in WAYS:
                yield Case('%s %s from %s' % (s.name, cname, how),
                           case(lambda L, s=s, ctx=ctx:
                                ctx(L, s.make(L)[1]), how), relaxed=True)
    for s in shapes():
        if s.dim:
            for how in WAYS:
                yield Case('%s as dimension from %s' % (s.name, how),
                           case(lambda L, s=s: L.new(
                               'DataShape', s.make(L)[1], sk(L)), how),
                           relaxed=True)
    # more parameters than the classes above have
    for n in (3, 5, 8):
        for how in WAYS:
            yield Case('record of %d from %s' % (n, how), case(
                lambda L, n=n: L.new('Record', L.list(
                    [(chr(97 + k), sk(L, 'T%d' % k)) for k in range(n)])),
                how), relaxed=True)
            yield Case('tuple of %d from %s' % (n, how), case(
                lambda L, n=n: L.new('Tuple', L.list(
                    [sk(L, 'T%d' % k) for k in range(n)])), how),
                relaxed=True)
            yield Case('function of %d from %s' % (n, how), case(
                lambda L, n=n: L.new('Function', *[
                    sk(L, 'T%d' % k) for k in range(n)]), how), relaxed=True)
            yield Case('categories %d from %s' % (n, how), case(
                lambda L, n=n: L.new('Categorical', L.list(
                    [chr(97 + k) for k in range(n)])), how), relaxed=True)
            yield Case('%d dimensions from %s' % (n, how), case(
                lambda L, n=n: L.new('DataShape', *(
                    [L.new('Fixed', L.int('n%d' % k, 0)) for k in range(n)] +
                    [sk(L)])), how), relaxed=True)
    if tier == 'thorough':
        ctxs = [c for c in contexts(L) if c[1]]
        for n1, _, c1 in ctxs:
            for n2, _, c2 in ctxs:
                for how in WAYS:
                    yield Case('%s in %s from %s' % (n1, n2, how), case(
                        lambda L, c1=c1, c2=c2: c2(L, c1(L, sk(L))), how),
                        relaxed=True)
