"""C23: type sets and maxtype."""
from ..explore import Case, Violation
from ..values import *
from .common import *

EXPLAIN = (
    'The type sets are read from the abstractly interpreted module and '
    'compared with the kinds they name, by iteration, by membership of every '
    'datashape class (parameters unknown) and by length; unions of the named '
    'sets and of sets of skolem types are compared with set union; supertype '
    'and maxtype are interpreted on every class, bare, optional, wrapped and '
    'with dimensions, and compared with the widest member of the kind.')
FLOOR = {'quick': 200, 'thorough': 200}

SIGNED = ['int8', 'int16', 'int32', 'int64']
UNSIGNED = ['uint8', 'uint16', 'uint32', 'uint64']
FLOATING = ['float16', 'float32', 'float64']
COMPLEX = ['complex64', 'complex128']
KINDS = {'signed': SIGNED, 'unsigned': UNSIGNED,
         'integral': SIGNED + UNSIGNED, 'floating': FLOATING,
         'complexes': COMPLEX, 'boolean': ['bool_'],
         'real': SIGNED + UNSIGNED + FLOATING,
         'numeric': SIGNED + UNSIGNED + FLOATING + COMPLEX,
         'scalar': SIGNED + UNSIGNED + FLOATING + COMPLEX + ['bool_']}
SMALL = {}
for _k in ('signed', 'unsigned', 'floating', 'complexes', 'boolean'):
    for _t in KINDS[_k]:
        SMALL[_t] = _k
WIDEST = {t: KINDS[k][-1] for t, k in SMALL.items()}
MODULE = 'datashape.typesets'


def the_set(L, name):
    return L.api(name, MODULE)


def same_members(L, got, want, what):
    for w in want:
        if not any(L.i.res(g) is w or L.eq(g, w) for g in got):
            raise Violation('%s does not hold %s' % (what, L.show(w)))
    for g in got:
        if not any(L.i.res(g) is w or L.eq(g, w) for w in want):
            raise Violation('%s holds %s' % (what, L.show(g)))


def members(name):
    def f(L):
        s = the_set(L, name)
        want = [L.api(t) for t in KINDS[name]]
        same_members(L, L.items(s), want, 'iterating ' + name)
        same_members(L, L.items(L.attr(s, 'types')), want, name + '.types')
        n = L.i.res(L.i.len_(s))
        L.check(n == len(want), 'len(%s) is %s' % (name, L.show(n)))
        L.check(len(L.items(s)) == len(want),
                'iterating %s repeats a member' % name)
    return f


def contains(L, s, x):
    return L.i.truth(L.i.contains(s, x))


def membership(name, shape):
    def f(L):
        _, x = shape.make(L)
        want = shape.name in KINDS[name]
        got = contains(L, the_set(L, name), x)
        L.check(got == want, '%s in %s is %s' % (L.show(x), name, got))
    return f


def membership_sk(name):
    def f(L):
        x = sk(L, 'X', unit=True)
        L.check(not contains(L, the_set(L, name), x),
                'an unrelated type is in %s' % name)
        x = L.new('Option', L.api(KINDS[name][0]))
        L.check(not contains(L, the_set(L, name), x),
                'an option is in %s' % name)
    return f


def union(a, b):
    def f(L):
        u = L.i.binop('|', the_set(L, a), the_set(L, b))
        want = [L.api(t) for t in dict.fromkeys(KINDS[a] + KINDS[b])]
        same_members(L, L.items(u), want, '%s | %s' % (a, b))
        for t in SCALARS:
            got = contains(L, u, L.api(t))
            L.check(got == (t in KINDS[a] + KINDS[b]),
                    '%s in %s | %s is %s' % (t, a, b, got))
        n = L.i.res(L.i.len_(u))
        L.check(n == len(want), 'len(%s | %s) is %s' % (a, b, L.show(n)))
        # the operands keep their members
        for k in (a, b):
            same_members(L, L.items(the_set(L, k)),
                         [L.api(t) for t in KINDS[k]], k)
    return f


def abstract_set(n):
    def f(L):
        xs = [sk(L, 'X%d' % k, unit=True) for k in range(n)]
        other = sk(L, 'Y', unit=True)
        s = L.new('TypeSet', *xs)
        same_members(L, L.items(s), xs, 'a set of %d types' % n)
        for x in xs:
            L.check(contains(L, s, x), 'a member is not in its set')
        inside = any(L.eq(other, x) for x in xs)
        L.check(contains(L, s, other) == inside,
                'membership disagrees with iteration')
    return f


def abstract_union(n, m):
    def f(L):
        xs = [sk(L, 'X%d' % k, unit=True) for k in range(n)]
        ys = [sk(L, 'Y%d' % k, unit=True) for k in range(m)]
        u = L.i.binop('|', L.new('TypeSet', *xs), L.new('TypeSet', *ys))
        same_members(L, L.items(u), xs + ys, 'a union')
        for x in xs + ys:
            L.check(contains(L, u, x), 'a member is not in the union')
    return f


def super_(t, wrap):
    def f(L):
        x = L.api(t)
        if wrap:
            x = L.new('Option', x)
        got = L.call(L.api('supertype', MODULE), x)
        want = the_set(L, SMALL[t])
        L.check(got is want or L.eq(got, want),
                'supertype(%s) is %s' % (L.show(x), L.repr(got)))
    return f


FORMS = {
    'bare': lambda L, x: x,
    'wrapped': lambda L, x: L.new('DataShape', x),
    'dims': lambda L, x: L.new('DataShape', L.new('Fixed', L.int('n', 0)),
                               L.api('var'), x),
}


def measure_of(L, v):
    return v


def widest(t, form, opt):
    def f(L):
        x = L.api(t)
        want = L.api(WIDEST[t])
        if opt:
            x, want = L.new('Option', x), L.new('Option', want)
        got = L.call(L.api('maxtype', MODULE), FORMS[form](L, x))
        L.check(L.eq(got, want) and got.cls is want.cls,
                'maxtype(%s) is %s' % (L.show(x), L.repr(got)))
        again = L.call(L.api('maxtype', MODULE), got)
        L.check(L.eq(again, got), 'maxtype is not idempotent on ' +
                L.show(x))
    return f


def unchanged(shape, form, opt):
    def f(L):
        _, x = shape.make(L)
        if opt:
            x = L.new('Option', x)
        got = L.call(L.api('maxtype', MODULE), FORMS[form](L, x))
        L.check(L.eq(got, x), 'maxtype(%s) is %s' % (L.show(x),
                                                     L.show(got)))
    return f


def rejected(shape, form, opt):
    def f(L):
        _, x = shape.make(L)
        if opt:
            x = L.new('Option', x)
        kind, v = L.outcome(L.api('maxtype', MODULE), FORMS[form](L, x))
        L.check(kind == 'raise', 'maxtype(%s) is %s' % (
            L.show(x), L.show(v)))
        L.check(L.exc_is(v, TypeError), 'maxtype(%s) raises %s' % (
            L.show(x), L.exc_text(v)))
    return f


def cases(L, tier):
    ms = measures()
    for k in KINDS:
        yield Case('members of ' + k, members(k))
        yield Case('skolem in ' + k, membership_sk(k))
        for s in ms:
            yield Case('%s in %s' % (s.name, k), membership(k, s))
    for a in KINDS:
        for b in KINDS:
            yield Case('%s | %s' % (a, b), union(a, b))
    for n in range(0, 4):
        yield Case('set of %d' % n, abstract_set(n))
        for m in range(0, 3):
            yield Case('union of %d and %d' % (n, m), abstract_union(n, m))
    for t in SMALL:
        for w in (0, 1):
            yield Case('supertype %s %d' % (t, w), super_(t, w))
            for form in FORMS:
                yield Case('maxtype %s %s %d' % (t, form, w),
                           widest(t, form, w))
    for s in ms:
        if s.name in SMALL:
            continue
        keep = s.name in ('Decimal', 'TimeDelta')
        if s.name == 'TypeVar':
            continue
        for form in FORMS:
            for w in (0, 1):
                if s.name == 'Option' and w:
                    continue
                yield Case('maxtype %s %s %d' % (s.name, form, w),
                           (unchanged if keep else rejected)(s, form, w))
