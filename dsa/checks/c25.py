"""C25: concatenation of datashapes."""
from itertools import permutations
from ..explore import Case, Violation
from ..values import *
from .common import *

EXPLAIN = (
    'Abstract interpretation of cat_dshapes on up to four datashapes with '
    'unknown leading lengths and up to two common trailing dimensions of '
    'every kind over a skolem or record measure: the leading dimension of the '
    'result must be the symbolic sum, the rest the common rest, in every '
    'order of the inputs.  A difference at every trailing position of every '
    'input (dimension value, dimension kind, number of dimensions, measure) '
    'must raise ValueError, a leading dimension that is not fixed TypeError.')
FLOOR = {'quick': 150, 'thorough': 150}
DIM = {
    'F': lambda L, n: L.new('Fixed', L.int(n, 0)),
    'V': lambda L, n: L.new('Var'),
    'T': lambda L, n: L.new('TypeVar', L.text(n, UPPER)),
    'E': lambda L, n: L.new('Ellipsis'),
}
CAT = 'cat_dshapes'


def total(L, ns):
    s = 0
    for n in ns:
        s = L.i.binop('+', s, n)
    return s


def measure(L, kind):
    if kind == 'record':
        return L.new('Record', L.list([('a', sk(L, 'fa')),
                                       ('b', sk(L, 'fb'))]))
    if kind == 'option':
        return L.new('Option', sk(L, 'O'))
    if kind == 'unit':
        return L.api('int32')
    return sk(L, 'M')


def same(n, rest, mk, order, form):
    def f(L):
        ns = [L.int('n%d' % k, 0) for k in range(n)]
        if form == 'equal' and n > 1:
            ns[-1] = ns[0]
        ds = [DIM[c](L, 'r%d' % k) for k, c in enumerate(rest)]
        m = measure(L, mk)
        xs = [L.new('DataShape', L.new('Fixed', k), *ds + [m]) for k in ns]
        if form == 'shared' and n > 1:
            xs[-1] = xs[0]
            ns[-1] = ns[0]
        xs = [xs[k] for k in order]
        arg = tuple(xs) if form == 'tuple' else L.list(xs)
        got = L.call(CAT, arg)
        want = L.new('DataShape', L.new('Fixed', total(L, ns)), *ds + [m])
        L.check(L.eq(got, want) and L.eq(want, got),
                'concatenating %s gives %s' % (L.show(xs), L.show(got)))
        first = L.i.res(L.i.getitem(got, 0))
        L.check(L.isinst(first, 'Fixed'), 'the first dimension is %s' %
                L.show(first))
        for k, x in zip(order, xs):
            L.check(L.eq(L.i.getitem(x, 0), ns[k]), 'an input changed')
    return f


def mismatch(n, rest, which, pos, how):
    """Input number which differs at position pos of the rest."""
    def f(L):
        ds = [DIM[c](L, 'r%d' % k) for k, c in enumerate(rest)]
        m = sk(L, 'M')
        other, om = list(ds), m
        if how == 'mute':
            m = mute(L)
        if how in ('measure', 'mute'):
            om = sk_other(L, m)
        elif how == 'option':
            om = L.new('Option', m)
        elif how == 'extra':
            other.insert(pos, L.new('Fixed', L.int('extra', 0)))
        elif how == 'missing':
            del other[pos]
        elif how == 'kind':
            other[pos] = L.new('Var') if rest[pos] != 'V' else \
                L.new('Fixed', L.int('k', 0))
        elif how == 'value':
            v = L.attr(ds[pos], 'val')
            other[pos] = L.new('Fixed', other_int(L, v, 'more'))
        elif how == 'symbol':
            other[pos] = L.new('TypeVar', other_text(
                L, L.attr(ds[pos], 'symbol'), 's', UPPER)) \
                if rest[pos] == 'T' else L.new('TypeVar', L.text('s', UPPER))
        elif how == 'swapped':
            a = L.new('Fixed', L.int('a', 0))
            b = L.new('Fixed', other_int(L, L.attr(a, 'val'), 'b'))
            ds, other = [a, b], [b, a]
        xs = []
        for k in range(n):
            lead = L.new('Fixed', L.int('n%d' % k, 0))
            xs.append(L.new('DataShape', lead, *(
                other + [om] if k == which else ds + [m])))
        kind, v = L.outcome(CAT, L.list(xs))
        L.check(kind == 'raise', 'concatenating %s gives %s' % (
            L.show(xs), L.show(v)))
        L.check(L.exc_is(v, ValueError), 'concatenating %s raises %s' % (
            L.show(xs), L.exc_text(v)))
    return f


def not_fixed(n, which, c, rest):
    def f(L):
        ds = [DIM[x](L, 'r%d' % k) for k, x in enumerate(rest)]
        m = sk(L, 'M')
        xs = [L.new('DataShape', *[DIM[c](L, 'lead') if k == which
                                   else L.new('Fixed', L.int('n%d' % k, 0))]
                    + ds + [m]) for k in range(n)]
        kind, v = L.outcome(CAT, L.list(xs))
        L.check(kind == 'raise', 'concatenating %s gives %s' % (
            L.show(xs), L.show(v)))
        L.check(L.exc_is(v, TypeError), 'concatenating %s raises %s' % (
            L.show(xs), L.exc_text(v)))
    return f


def no_dims(n):
    def f(L):
        x = L.new('DataShape', sk(L, 'M'))
        kind, v = L.outcome(CAT, L.list([x] * n))
        L.check(kind == 'raise' and L.exc_is(v, TypeError),
                'concatenating measures gives %s' % L.show(v))
    return f


def empty(L):
    for a in (L.list([]), ()):
        kind, v = L.outcome(CAT, a)
        L.check(kind == 'raise', 'concatenating nothing gives %s' % L.show(v))
        L.check(L.exc_is(v, ValueError), 'concatenating nothing raises %s' %
                L.exc_text(v))


def cases(L, tier):
    rests = ['', 'F', 'V', 'T', 'E', 'FF', 'FV', 'VF', 'TF', 'EF', 'VV']
    if tier == 'thorough':
        rests += ['FFF', 'FVT', 'EFV', 'TTT']
    for n in range(1, 5):
        for r in rests:
            for mk in ('skolem', 'record', 'option', 'unit'):
                yield Case('%d with %r over %s' % (n, r, mk), same(
                    n, r, mk, range(n), 'list'))
            for form in ('tuple', 'equal', 'shared'):
                yield Case('%d with %r, %s' % (n, r, form), same(
                    n, r, 'skolem', range(n), form))
            if n > 1 and len(r) < 2:
                for o in list(permutations(range(n)))[1:]:
                    yield Case('%d with %r in order %s' % (n, r, o), same(
                        n, r, 'skolem', o, 'list'))
            if n == 1:
                continue
            for w in range(n):
                for how in ('measure', 'option', 'mute'):
                    yield Case('%s of %d of %d with %r differs' % (
                        how, w, n, r), mismatch(n, r, w, 0, how))
                for p in range(len(r) + 1):
                    yield Case('extra at %d in %d of %d with %r' % (
                        p, w, n, r), mismatch(n, r, w, p, 'extra'))
                for p in range(len(r)):
                    yield Case('missing %d in %d of %d with %r' % (
                        p, w, n, r), mismatch(n, r, w, p, 'missing'))
                    yield Case('kind at %d in %d of %d with %r' % (
                        p, w, n, r), mismatch(n, r, w, p, 'kind'))
                    if r[p] == 'F':
                        yield Case('value at %d in %d of %d with %r' % (
                            p, w, n, r), mismatch(n, r, w, p, 'value'))
                if r == 'FF':
                    yield Case('swapped in %d of %d' % (w, n), mismatch(
                        n, r, w, 0, 'swapped'))
                for c in 'VTE':
                    if c + r != 'EE' and not (c == 'E' and 'E' in r):
                        yield Case('%s leads %d of %d with %r' % (
                            c, w, n, r), not_fixed(n, w, c, r))
        if n > 1:
            yield Case('%d measures' % n, no_dims(n))
    yield Case('nothing', empty)
    for c in long_cases(tier):
        yield c


def long_cases(tier):
    for r in ('FVT', 'FFFF', 'VFTFV', 'TTTFFF', 'FFVFFVFF'):
        for n in (2, 3, 9):
            for mk in ('skolem', 'record'):
                yield Case('%d with %r over %s' % (n, r, mk), same(
                    n, r, mk, range(n), 'list'))
            yield Case('%d with %r backwards' % (n, r), same(
                n, r, 'skolem', range(n)[::-1], 'tuple'))
            for w in sorted({0, 1, n // 2, n - 2, n - 1}):
                for how in ('measure', 'mute', 'option'):
                    yield Case('%s of %d of %d with %r differs' % (
                        how, w, n, r), mismatch(n, r, w, 0, how))
                for p in range(len(r) + 1):
                    yield Case('extra at %d in %d of %d with %r' % (
                        p, w, n, r), mismatch(n, r, w, p, 'extra'))
                for p in range(len(r)):
                    yield Case('missing %d in %d of %d with %r' % (
                        p, w, n, r), mismatch(n, r, w, p, 'missing'))
                    yield Case('kind at %d in %d of %d with %r' % (
                        p, w, n, r), mismatch(n, r, w, p, 'kind'))
                    if r[p] == 'F':
                        yield Case('value at %d in %d of %d with %r' % (
                            p, w, n, r), mismatch(n, r, w, p, 'value'))
                    else:
                        yield Case('symbol at %d in %d of %d with %r' % (
                            p, w, n, r), mismatch(n, r, w, p, 'symbol'))
                for c in 'VTE':
                    yield Case('%s leads %d of %d with %r' % (
                        c, w, n, r), not_fixed(n, w, c, r))
    for n in (5, 6, 7, 8, 12, 17):
        for r in ('', 'F'):
            yield Case('%d with %r' % (n, r), same(
                n, r, 'skolem', range(n), 'list'))
            yield Case('%d with %r, equal' % (n, r), same(
                n, r, 'skolem', range(n), 'equal'))
            yield Case('%d with %r, shared' % (n, r), same(
                n, r, 'skolem', range(n), 'shared'))
            for w in range(n):
                for how in ('measure', 'mute', 'extra') + (
                        ('value', 'missing') if r else ()):
                    yield Case('%s of %d of %d with %r differs' % (
                        how, w, n, r), mismatch(n, r, w, 0, how))
                yield Case('%s leads %d of %d with %r' % (
                    'V', w, n, r), not_fixed(n, w, 'V', r))
