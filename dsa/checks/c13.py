"""C13: unifying discovered types."""
from itertools import product
from ..explore import Case, Violation
from ..values import *
from .common import *
from . import disc

EXPLAIN = (
    'The conversion table of the package is read back through abstract '
    'interpretation and compared, for every ordered list of one to three '
    '(thorough: four) scalar types, with the least upper bound in the '
    'documented order, under three iteration orders of every set both while '
    'the package is imported and while it runs; lists with missing values at '
    'every position; records over every pair of field types with equal, '
    'permuted, missing and null fields; datashapes with unknown leading '
    'lengths of every kind.  The result must be the bound, with the number '
    'of elements given, every field, and the option mark exactly when a '
    'value is missing.')
FLOOR = {'quick': 1500, 'thorough': 5000}
LOAD_ORDERS = ('ins', 'rev', 'rot')
MOD = 'datashape.discovery'


def counted(L, ds, n, what):
    """The elements of a result: (leading length checked) the rest."""
    L.check(L.isinst(ds, 'DataShape'), '%s is %s' % (what, L.show(ds)))
    ps = L.items(L.attr(ds, 'parameters'))
    L.check(L.isinst(ps[0], 'Fixed') and L.eq(L.attr(ps[0], 'val'), n),
            '%s does not have %d elements: %s' % (what, n, L.show(ds)))
    return L.new('DataShape', *ps[1:])


def any_order(L, fn, xs, v, what):
    """Uniting in another order gives the same."""
    if not 1 < len(xs) <= 6:
        return
    for k in (1, len(xs) - 1) if len(xs) > 2 else (1,):
        w = L.call(L.api(fn, MOD), L.list(xs[k:] + xs[:k]))
        if not L.truth(v):
            L.check(not L.truth(w), '%s is not possible, but beginning at %d '
                    'gives %s' % (what, k, L.show(w)))
            continue
        L.check(L.truth(w) and L.eq(v, w), '%s is %s, but beginning at %d %s'
                % (what, L.show(v), k, L.show(w)))


def common(ts):
    """lowest_common_dshape"""
    def f(L):
        want = disc.lub(ts)
        xs = [disc.ty(L, t) for t in ts]
        kind, v = L.outcome(L.api('lowest_common_dshape', MOD), L.list(xs))
        if want is None:
            L.check(kind == 'raise' and L.exc_is(v, ValueError),
                    'the common type of %s is %s' % (ts, L.show(v)))
            return
        L.check(kind == 'ret', 'the common type of %s raises %s' % (
            ts, L.exc_text(v) if kind == 'raise' else ''))
        L.check(L.eq(v, disc.ty(L, want)), 'the common type of %s is %s' % (
            ts, L.show(v)))
    return f


def base(ts, form):
    """unite_base with missing values"""
    def f(L):
        xs = [disc.ty(L, t) for t in ts]
        if form == 'wrapped':
            xs = [L.new('DataShape', x) for x in xs]
        v = L.call(L.api('unite_base', MOD), L.list(xs))
        good = [t for t in ts if t != 'null']
        what = 'uniting %s' % (ts,)
        if not good:
            rest = counted(L, v, len(ts), what)
            L.check(L.eq(rest, L.new('Null')), '%s is %s' % (what, L.show(v)))
            return
        want = disc.lub(good)
        if want is None or not set(good) <= set(disc.KNOWN):
            if not L.truth(v):
                return
            # other rules may take over, but nothing may be lost
            counted(L, v, len(ts), what)
            return
        rest = counted(L, v, len(ts), what)
        w = disc.ty(L, want)
        if len(good) < len(ts):
            w = L.new('Option', w)
        L.check(L.eq(rest, w), '%s is %s' % (what, L.show(v)))
    return f


def whole(ts):
    """discover on a list of scalars"""
    model = {'int64': 'int', 'float64': 'float', 'bool': 'true',
             'null': 'none', 'date': 'date', 'datetime': 'datetime',
             'timedelta': 'delta', 'string': 'text'}

    def f(L):
        vs = [model[t] for t in ts]
        v = L.call('discover', disc.make(L, vs))
        what = 'discover %s' % (vs,)
        why = disc.describes(L, v, vs)
        L.check(not why, '%s: %s' % (what, why))
    return f


def records(fields, null_at, form):
    """Records with the given field types (one list per record)."""
    def f(L):
        rs = []
        for k, fs in enumerate(fields):
            if k == null_at:
                rs.append(L.new('Null'))
                continue
            rs.append(L.new('Record', L.list(
                [(n, disc.ty(L, t)) for n, t in fs])))
        if form == 'wrapped':
            rs = [L.new('DataShape', r) for r in rs]
        v = L.call(L.api('unite_base', MOD), L.list(rs))
        what = 'uniting records %s' % (fields,)
        any_order(L, 'unite_base', rs, v, what)
        if not L.truth(v):
            return
        rest = counted(L, v, len(rs), what)
        m, opt = disc.strip(L, rest)
        L.check(L.isinst(m, 'Record'), '%s is %s' % (what, L.show(v)))
        if null_at is not None:
            L.check(opt, '%s with a missing one is %s' % (what, L.show(v)))
        got = {}
        for fl in L.items(L.attr(m, 'fields')):
            n, t = L.items(fl)
            L.check(L.i.res(n) not in got, '%s repeats a field' % what)
            got[L.i.res(n)] = t
        good = [dict(fs) for k, fs in enumerate(fields) if k != null_at]
        names = set(n for d in good for n in d)
        L.check(set(got) == names, '%s has the fields %s' % (what,
                                                            sorted(got)))
        for n in names:
            ts = [d.get(n, 'null') for d in good]
            gs = [t for t in ts if t != 'null']
            t, o = disc.strip(L, got[n])
            if not gs:
                L.check(L.isinst(t, 'Null'), '%s: %s is %s' % (
                    what, n, L.show(got[n])))
                continue
            want = disc.lub(gs)
            if want is None:
                continue
            L.check(L.eq(t, disc.ty(L, want)), '%s: field %s is %s' % (
                what, n, L.show(got[n])))
            L.check(o == ('null' in ts), '%s: field %s is %s' % (
                what, n, L.show(got[n])))
    return f


def must_unite(fields):
    """Records with the same names always unite."""
    def f(L):
        rs = [L.new('Record', L.list([(n, disc.ty(L, t)) for n, t in fs]))
              for fs in fields]
        v = L.call(L.api('unite_base', MOD), L.list(rs))
        L.check(L.truth(v), 'uniting %s gives %s' % (fields, L.show(v)))
    return f


def merge(leads, rest, same):
    """unite_merge_dimensions"""
    def f(L):
        m = sk(L, 'M')
        n = L.int('n', 5)
        k = other_int(L, n, 'more')
        D = {'n': lambda: L.new('Fixed', n),
             'k': lambda: L.new('Fixed', k),
             'V': lambda: L.new('Var'),
             '3': lambda: L.new('Fixed', 3), '4': lambda: L.new('Fixed', 4)}
        tail = [D['3']() if c == 'F' else L.new('Var') for c in rest]
        xs = []
        for j, c in enumerate(leads):
            mm = m if same or j < len(leads) - 1 else sk_other(L, m)
            xs.append(L.new('DataShape', D[c](), *tail + [mm]))
        v = L.call(L.api('unite_merge_dimensions', MOD), L.list(xs))
        what = 'merging %s' % L.show(xs)
        any_order(L, 'unite_merge_dimensions', xs, v, what)
        if not same:
            L.check(not L.truth(v), '%s is %s' % (what, L.show(v)))
            return
        got = counted(L, v, len(xs), what)
        lead = D[leads[0]]() if len(set(leads)) == 1 else L.new('Var')
        want = L.new('DataShape', lead, *tail + [m])
        L.check(L.eq(got, want), '%s is %s' % (what, L.show(v)))
    return f


def identical(n, same):
    def f(L):
        m = sk(L, 'M')
        xs = [m] * n if same else [m] * (n - 1) + [sk_other(L, m)]
        v = L.call(L.api('unite_identical', MOD), L.list(xs))
        if not same:
            L.check(not L.truth(v), 'uniting different types gives %s' %
                    L.show(v))
            return
        rest = counted(L, v, n, 'uniting %d equal types' % n)
        L.check(L.eq(rest, m), 'uniting equal types gives %s' % L.show(v))
    return f


def shared(fn, n, kind):
    """The same object several times, in every rule."""
    def f(L):
        x = {'unit': lambda: L.api('int64'),
             'wrapped': lambda: L.new('DataShape', L.api('int64')),
             'record': lambda: L.new('Record', L.list(
                 [('x', L.api('int64')), ('y', L.api('string'))])),
             'shaped': lambda: L.new('DataShape', L.new('Fixed', L.int(
                 'n', 0)), sk(L, 'M')),
             'null': lambda: L.new('Null')}[kind]()
        v = L.call(L.api(fn, MOD), L.list([x] * n))
        if not L.truth(v):
            return
        rest = counted(L, v, n, '%s of %d times the same %s' % (fn, n, kind))
        if kind == 'unit' or fn == 'unite_identical':
            L.check(L.eq(rest, x), '%s of the same gives %s' % (
                fn, L.show(v)))
    return f


def long_cases():
    B = ['int64', 'float64', 'bool', 'string', 'date', 'datetime']
    for n in (4, 5, 6, 7, 9, 12, 17):
        for a in ('int64', 'bool', 'datetime', 'string'):
            for b in ('null', 'float64', 'string', 'date'):
                for p in range(n):
                    ts = [a] * n
                    ts[p] = b
                    ts = tuple(ts)
                    yield Case('base %s' % ','.join(ts), base(ts, 'bare'))
                    if b != 'null':
                        yield Case('common %s' % ','.join(ts), common(ts))
                    if p in (0, n // 2, n - 1):
                        yield Case('base wrapped %s' % ','.join(ts),
                                   base(ts, 'wrapped'))
        for p in range(n):
            ts = ('null',) * p + ('int64',) + ('null',) * (n - p - 1)
            yield Case('base %s' % ','.join(ts), base(ts, 'bare'))
            fa = [('x', 'int64'), ('y', 'string')]
            for fb in ([('x', 'float64'), ('y', 'string')],
                       [('x', 'int64'), ('y', 'null')],
                       [('y', 'string'), ('x', 'int64')],
                       [('x', 'int64')],
                       [('x', 'int64'), ('y', 'string'), ('z', 'bool')]):
                fs = [fa] * n
                fs[p] = fb
                yield Case('records of %d, at %d %s' % (n, p, fb),
                           records(fs, None, 'bare'))
                yield Case('records of %d, at %d %s, wrapped' % (n, p, fb),
                           records(fs, None, 'wrapped'))
            yield Case('records of %d, at %d null' % (n, p),
                       records([fa] * n, p, 'bare'))
            leads = 'n' * p + 'k' + 'n' * (n - p - 1)
            for l in (leads, leads.replace('k', 'V'),
                      leads.replace('n', '3').replace('k', '4'),
                      leads.replace('n', 'V')):
                yield Case('merge %s' % l, merge(l, '', True))
                yield Case('merge %s, F' % l, merge(l, 'F', True))
            yield Case('do not merge %s' % leads, merge(leads, '', False))
        for k in 'n3V':
            yield Case('merge %s' % (k * n), merge(k * n, 'V', True))
        yield Case('identical %d' % n, identical(n, True))
        yield Case('identical %d but one' % n, identical(n, False))
        ts = tuple(B[k % 6] for k in range(n))
        for o in ('ins', 'rev', 'rot'):
            for q in (ts, ts[::-1], ts[n // 2:] + ts[:n // 2],
                      ('int64', 'float64') * (n // 2) + ('bool',),
                      ('date', 'datetime') * (n // 2)):
                yield Case('common %s %s' % (','.join(q), o), common(q), o)
                yield Case('base %s %s' % (','.join(q), o), base(q, 'bare'),
                           o)
    for n in (1, 2, 3, 5, 8):
        for fn in ('unite_identical', 'unite_base',
                   'unite_merge_dimensions'):
            for k in ('unit', 'wrapped', 'record', 'shaped', 'null'):
                if fn == 'unite_merge_dimensions' and k != 'shaped':
                    continue
                yield Case('%s of %d times the same %s' % (fn, n, k),
                           shared(fn, n, k))
    for n in (5, 8, 12):
        names = ['g%d' % ((5 * k) % 13) for k in range(n)]
        fa = [(x, 'int64') for x in names]
        for p in range(n):
            fb = list(fa)
            fb[p] = (names[p], 'float64')
            fc = list(fa)
            fc[p] = (names[p], 'null')
            for g in (fb, fc, fa[:p] + fa[p + 1:], fa[p:] + fa[:p]):
                yield Case('records of %d fields, %d differs in %s' % (
                    n, p, g[p:p + 1]), records([fa, g], None, 'bare'))
                yield Case('records of %d fields, %d differs in %s, third'
                           % (n, p, g[p:p + 1]),
                           records([fa, fa, g], None, 'bare'))


def cases(L, tier):
    for c in long_cases():
        yield c
    deep = tier == 'thorough'
    orders = ('ins', 'rev', 'rot')
    K = disc.KNOWN
    for n in (1, 2, 3, 4) if deep else (1, 2, 3):
        for ts in product(K, repeat=n):
            # three elements in a set at most: all orders matter there
            for o in orders if n > 1 else ('ins',):
                yield Case('common %s %s' % (','.join(ts), o), common(ts), o)
    for ts in (('float32', 'int64'), ('complex128', 'float64'),
               ('time', 'date'), ('json', 'string')):
        yield Case('no common type of %s' % (ts,), common(ts))
    for n in (1, 2, 3):
        for ts in product(K + ['null'] if n < 3 or deep else
                          ['string', 'int64', 'float64', 'date', 'bool',
                           'null'], repeat=n):
            if n == 3 and 'null' not in ts:
                continue
            for o in orders:
                yield Case('base %s %s' % (','.join(ts), o),
                           base(ts, 'bare'), o)
            yield Case('base wrapped %s' % (','.join(ts)),
                       base(ts, 'wrapped'))
    for ts in product(['complex128', 'time', 'int64', 'null', 'float32'],
                      repeat=2):
        yield Case('base %s' % ','.join(ts), base(ts, 'bare'))
    for n in (2, 3):
        for ts in product(['int64', 'float64', 'bool', 'null', 'datetime',
                           'date', 'string'], repeat=n):
            yield Case('discover %s' % ','.join(ts), whole(ts))
    T = ['int64', 'float64', 'string', 'null', 'date']
    for a, b in product(T, repeat=2):
        for c in ('int64', 'null'):
            fa, fb = [('x', a), ('y', 'int64')], [('x', b), ('y', c)]
            for form in ('bare', 'wrapped'):
                yield Case('records x: %s, %s y: %s %s' % (a, b, c, form),
                           records([fa, fb], None, form))
            yield Case('records unite x: %s, %s y: %s' % (a, b, c),
                       must_unite([fa, fb]))
            for k in range(3):
                fs = [fa, fb]
                fs.insert(k, [])
                yield Case('records x: %s, %s y: %s, missing %d' % (
                    a, b, c, k), records(fs, k, 'bare'))
            yield Case('records permuted x: %s, %s y: %s' % (a, b, c),
                       records([fa, fb[::-1]], None, 'bare'))
            yield Case('records lacking x: %s, %s y: %s' % (a, b, c),
                       records([fa, fb[:1]], None, 'bare'))
            yield Case('records having x: %s, %s y: %s' % (a, b, c),
                       records([fa[:1], fb], None, 'bare'))
            yield Case('records other x: %s, %s y: %s' % (a, b, c),
                       records([fa, [('x', b), ('z', c)]], None, 'bare'))
    for n in (1, 2, 3):
        for leads in product('nkV34', repeat=n):
            for rest in ('', 'F', 'V') if n < 3 else ('',):
                yield Case('merge %s %s' % (''.join(leads), rest),
                           merge(leads, rest, True))
                if n > 1:
                    yield Case('do not merge %s %s' % (''.join(leads), rest),
                               merge(leads, rest, False))
        for same in (True, False):
            if n > 1 or same:
                yield Case('identical %d %s' % (n, same), identical(n, same))
