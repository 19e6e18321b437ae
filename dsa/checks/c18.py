"""C18: assert_dshape_equal."""
from itertools import permutations, product
from ..explore import Case, Violation
from ..values import *
from .common import *
from . import c17

EXPLAIN = (
    'Abstract interpretation of assert_dshape_equal on every pair of classes '
    'of datashape with unknown parameters (equal ones, ones that differ in '
    'exactly one parameter, and different classes), on every pair of '
    'dimension lists up to length three, and on pairs that differ in one '
    'comparable thing (dimension, time zone, unit, encoding, length, field '
    'order, or something no option names) placed in every context (field, '
    'item, option, argument, result, units and two of these): it passes '
    'exactly when the difference is switched off, for every single option, '
    'all others, and all of them, and otherwise raises AssertionError.')
FLOOR = {'quick': 2000, 'thorough': 3000}
FN = 'assert_dshape_equal'
MOD = 'datashape.util.testing'
FLAGS = ['check_dim', 'check_tz', 'check_timedelta_unit',
         'check_str_encoding', 'check_str_fixlen', 'check_record_order']


def passes(L, a, b, want, flags=(), why=''):
    k = dict((f, False) for f in flags)
    kind, v = L.outcome(L.api(FN, MOD), a, b, **k)
    what = '%s against %s%s' % (L.show(a), L.show(b), ''.join(
        ' %s=False' % f for f in flags))
    if want:
        L.check(kind == 'ret', '%s raises %s' % (
            what, L.exc_text(v) if kind == 'raise' else ''))
    else:
        L.check(kind == 'raise', '%s passes' % what)
        L.check(L.exc_is(v, AssertionError), '%s raises %s' % (
            what, L.exc_text(v)))


def wrap(L, x, form):
    if form == 'bare':
        return x
    if form == 'fixed':
        return L.new('DataShape', L.new('Fixed', 3), x)
    return L.new('DataShape', x)


def equal(shape, form):
    def f(L):
        vals, a = shape.make(L)
        b = shape.build(L, *vals)
        passes(L, wrap(L, a, form), wrap(L, b, form), True)
        passes(L, wrap(L, a, form), wrap(L, a, form), True)
    return f


def one_differs(shape, k, form):
    def f(L):
        vals, a = shape.make(L)
        vals = list(vals)
        vals[k] = shape.slots[k].differ(L, vals[k])
        b = shape.build(L, *vals)
        passes(L, wrap(L, a, form), wrap(L, b, form), False)
    return f


def classes(s, t, form, flags):
    def f(L):
        _, a = s.make(L)
        _, b = t.make(L)
        passes(L, wrap(L, a, form), wrap(L, b, form), False, flags)
    return f


# ------------------------------------------------------------- differences

def ds(L, *p):
    return L.new('DataShape', *p)


def fx(L, n):
    return L.new('Fixed', n)


def d_value(L):
    n = L.int('n', 0)
    return (ds(L, fx(L, n), L.api('int32')),
            ds(L, fx(L, other_int(L, n, 'more')), L.api('int32')))


def d_second(L):
    n = L.int('n', 0)
    m = sk(L, 'M')
    return (ds(L, fx(L, 2), fx(L, n), m),
            ds(L, fx(L, 2), fx(L, other_int(L, n, 'more')), m))


def d_kind(L):
    return (ds(L, fx(L, L.int('n', 0)), L.api('string')),
            ds(L, L.new('Var'), L.api('string')))


def d_rank(L):
    m = L.api('int32')
    n = L.int('n', 0)
    return ds(L, fx(L, n), m), ds(L, fx(L, n), fx(L, n), m)


def d_norank(L):
    m = L.new('Tuple', L.list([L.api('int32')]))
    return ds(L, m), ds(L, L.new('Var'), m)


def d_typevar(L):
    s = L.text('symbol', UPPER)
    m = L.api('date_')
    return (ds(L, L.new('TypeVar', s), m),
            ds(L, L.new('TypeVar', other_text(L, s, 'other', UPPER)), m))


def d_tz(cls, none):
    def f(L):
        t = L.text('tz')
        o = None if none else other_text(L, t, 'other tz')
        return ds(L, L.new(cls, t)), ds(L, L.new(cls, o))
    return f


def d_unit(L):
    u = L.pick('unit', UNITS)
    v = L.pick('other unit', [x for x in UNITS if x != u])
    return ds(L, L.new('TimeDelta', u)), ds(L, L.new('TimeDelta', v))


def d_encoding(fixed):
    def f(L):
        u = L.pick('encoding', ENCODINGS)
        v = L.pick('other encoding', [x for x in ENCODINGS if x != u])
        n = [L.int('n', 0)] if fixed else []
        return (ds(L, L.new('String', *n + [u])),
                ds(L, L.new('String', *n + [v])))
    return f


def d_fixlen(none):
    def f(L):
        n = L.int('n', 0)
        e = L.pick('encoding', ENCODINGS)
        return (ds(L, L.new('String', n, e)),
                ds(L, L.new('String', e) if none else
                   L.new('String', other_int(L, n, 'more'), e)))
    return f


def rec(L, *fs):
    return ds(L, L.new('Record', L.list(list(fs))))


def d_order(L):
    a, b = sk(L, 'A'), L.new('Option', sk(L, 'B'))
    return rec(L, ('x', a), ('y', b)), rec(L, ('y', b), ('x', a))


def d_order3(L):
    a, b, c = sk(L, 'A'), L.api('int32'), ds(L, L.new('Var'), sk(L, 'C'))
    fs = [('x', a), ('y', b), ('z', c)]
    o = L.pick('order', [(1, 0, 2), (2, 1, 0), (1, 2, 0), (2, 0, 1),
                         (0, 2, 1)])
    return rec(L, *fs), rec(L, *[fs[k] for k in o])


def d_tz_encoding(L):
    t = L.text('tz')
    return (rec(L, ('a', L.new('Time', t)), ('b', L.new('String', 'A'))),
            rec(L, ('a', L.new('Time', None)), ('b', L.new('String', 'U8'))))


def d_string_both(L):
    return (ds(L, L.new('String', 7, 'A')),
            ds(L, L.new('String', L.int('n', 8), 'U16')))


def d_order_unit(L):
    return (rec(L, ('a', L.new('TimeDelta', 's')), ('b', L.api('int32'))),
            rec(L, ('b', L.api('int32')), ('a', L.new('TimeDelta', 'us'))))


def d_dim_tz(L):
    return (ds(L, fx(L, 3), L.new('DateTime', 'UTC')),
            ds(L, L.new('Var'), L.new('DateTime', None)))


# differences that no option names

def n_measure(L):
    m = sk(L, 'M')
    return ds(L, m), ds(L, sk_other(L, m))


def n_unit_measure(L):
    a = L.pick('measure', ['int32', 'string', 'date_', 'bool_'])
    b = L.pick('other', ['int64', 'float64', 'datetime_', 'char'])
    return ds(L, L.api(a)), ds(L, L.api(b))


def n_option(L):
    m = sk(L, 'M')
    return ds(L, m), ds(L, L.new('Option', m))


def n_option_string(L):
    return ds(L, L.api('string')), ds(L, L.new('Option', L.api('string')))


def n_name(L):
    m = sk(L, 'M')
    n = L.text('name', IDENT)
    return rec(L, (n, m)), rec(L, (other_text(L, n, 'other', IDENT), m))


def n_second_name(L):
    m = sk(L, 'M')
    return rec(L, ('a', m), ('b', m)), rec(L, ('a', m), ('c', m))


def n_swapped_types(L):
    """The same names and types, but exchanged."""
    return (rec(L, ('a', L.api('int32')), ('b', L.api('string'))),
            rec(L, ('a', L.api('string')), ('b', L.api('int32'))))


def n_swapped_names(L):
    return (rec(L, ('a', L.api('int32')), ('b', L.api('string'))),
            rec(L, ('b', L.api('int32')), ('a', L.api('string'))))


def n_field_count(L):
    m = sk(L, 'M')
    return rec(L, ('a', m)), rec(L, ('a', m), ('b', m))


def n_no_field(L):
    return rec(L), rec(L, ('a', sk(L, 'M')))


def n_field_type(L):
    m = sk(L, 'M')
    return (rec(L, ('a', L.api('int32')), ('b', m)),
            rec(L, ('a', L.api('int32')), ('b', sk_other(L, m))))


def tup(L, *xs):
    return ds(L, L.new('Tuple', L.list(list(xs))))


def n_item(L):
    m = sk(L, 'M')
    return tup(L, L.api('int32'), m), tup(L, L.api('int32'), sk_other(L, m))


def n_item_order(L):
    a = sk(L, 'A')
    b = sk_other(L, a)
    return tup(L, a, b), tup(L, b, a)


def n_item_count(L):
    a = sk(L, 'A')
    return tup(L, a), tup(L, a, a)


def n_tuple_record(L):
    a = sk(L, 'A')
    return tup(L, a), rec(L, ('a', a))


def n_time(L):
    t = L.pick('tz', [None, 'UTC'])
    return ds(L, L.new('Time', t)), ds(L, L.new('DateTime', t))


def n_datetime(L):
    t = L.pick('tz', [None, 'UTC'])
    return ds(L, L.new('DateTime', t)), ds(L, L.new('Time', t))


def n_decimal(L):
    p, s = L.int('p', 1), L.int('s', 0)
    if L.pick('which', [0, 1]):
        return (ds(L, L.new('Decimal', p, s)),
                ds(L, L.new('Decimal', other_int(L, p, 'more'), s)))
    return (ds(L, L.new('Decimal', p, s)),
            ds(L, L.new('Decimal', p, other_int(L, s, 'more'))))


def n_units(L):
    u = L.text('unit')
    tp = ds(L, sk(L, 'M'))
    return (ds(L, L.new('Units', u, tp)),
            ds(L, L.new('Units', other_text(L, u, 'other'), tp)))


def n_units_tp(L):
    m = sk(L, 'M')
    return (ds(L, L.new('Units', 'm', ds(L, m))),
            ds(L, L.new('Units', 'm', ds(L, sk_other(L, m)))))


def n_arity(L):
    m = sk(L, 'M')
    return ds(L, L.new('Function', m, m)), ds(L, L.new('Function', m, m, m))


def n_argument(L):
    m = sk(L, 'M')
    return (ds(L, L.new('Function', m, m)),
            ds(L, L.new('Function', sk_other(L, m), m)))


def n_second_argument(L):
    m = sk(L, 'M')
    return (ds(L, L.new('Function', m, m, m)),
            ds(L, L.new('Function', m, sk_other(L, m), m)))


def n_result(L):
    m = sk(L, 'M')
    return (ds(L, L.new('Function', m, m)),
            ds(L, L.new('Function', m, sk_other(L, m))))


def n_map(L):
    m = sk(L, 'M')
    if L.pick('which', [0, 1]):
        return (ds(L, L.new('Map', m, m)), ds(L, L.new('Map', sk_other(L, m),
                                                       m)))
    return ds(L, L.new('Map', m, m)), ds(L, L.new('Map', m, sk_other(L, m)))


def n_categories(L):
    a, b = 'a', L.pick('other', ['b', 'ab'])
    return (ds(L, L.new('Categorical', L.list([a]), L.api('string'), False)),
            ds(L, L.new('Categorical', L.list([b]), L.api('string'), False)))


def n_ordered(L):
    return (ds(L, L.new('Categorical', L.list(['a']), L.api('string'), True)),
            ds(L, L.new('Categorical', L.list(['a']), L.api('string'),
                        False)))


DIFFS = {
    'dimension': (d_value, ['check_dim']),
    'second dimension': (d_second, ['check_dim']),
    'dimension kind': (d_kind, ['check_dim']),
    'rank': (d_rank, ['check_dim']),
    'no rank': (d_norank, ['check_dim']),
    'dimension variable': (d_typevar, ['check_dim']),
    'time zone': (d_tz('Time', 0), ['check_tz']),
    'time zone none': (d_tz('Time', 1), ['check_tz']),
    'datetime zone': (d_tz('DateTime', 0), ['check_tz']),
    'datetime zone none': (d_tz('DateTime', 1), ['check_tz']),
    'delta unit': (d_unit, ['check_timedelta_unit']),
    'encoding': (d_encoding(0), ['check_str_encoding']),
    'encoding fixed': (d_encoding(1), ['check_str_encoding']),
    'length': (d_fixlen(0), ['check_str_fixlen']),
    'length none': (d_fixlen(1), ['check_str_fixlen']),
    'order': (d_order, ['check_record_order']),
    'order 3': (d_order3, ['check_record_order']),
    'zone and encoding': (d_tz_encoding, ['check_tz', 'check_str_encoding']),
    'length and encoding': (d_string_both, ['check_str_encoding',
                                            'check_str_fixlen']),
    'order and unit': (d_order_unit, ['check_record_order',
                                      'check_timedelta_unit']),
    'dimension and zone': (d_dim_tz, ['check_dim', 'check_tz']),
}
NEVER = dict((n[2:].replace('_', ' '), f) for n, f in list(globals().items())
             if n.startswith('n_'))
for _n, _f in NEVER.items():
    DIFFS[_n] = (_f, None)

CTX = dict((n, f[0]) for n, f in c17.CONTEXTS.items()
           if n not in ('key', 'value', 'mark', 'below fixed'))
# a context with dimensions of its own
CTX['below dims'] = lambda L, d: L.new(
    'Tuple', L.list([L.new('DataShape', L.new('Fixed', 2), L.new('Option',
                                                                 d))]))


def differ(name, ctxs, flags, swap, outer):
    fn, need = DIFFS[name]

    def f(L):
        a, b = fn(L)
        for c in reversed(ctxs):
            a, b = (L.new('DataShape', CTX[c](L, x)) for x in (a, b))
        if outer:
            a, b = (L.new('DataShape', L.new('Var'), x) for x in (a, b))
        if swap:
            a, b = b, a
        passes(L, a, b, need is not None and set(need) <= set(flags), flags)
    return f


def same(name, ctxs, flags):
    """The same datashape passes whatever is switched off."""
    fn, need = DIFFS[name]

    def f(L):
        a, _ = fn(L)
        for c in reversed(ctxs):
            a = L.new('DataShape', CTX[c](L, a))
        passes(L, a, a, True, flags)
    return f


def dims(p, q, flags):
    D = {'F': lambda L, k: L.new('Fixed', k), 'V': lambda L, k: L.new('Var'),
         'T': lambda L, k: L.new('TypeVar', 'T'),
         'E': lambda L, k: L.new('Ellipsis')}

    def f(L):
        m = sk(L, 'M')
        n = L.int('n', 0)
        a = L.new('DataShape', *[D[c](L, n) for c in p] + [m])
        b = L.new('DataShape', *[D[c](L, n) for c in q] + [m])
        passes(L, a, b, p == q or 'check_dim' in flags, flags)
    return f


# ---------------------------------------------------------- many parts

def part(L, kind):
    """A pair of datashapes that differ in one thing."""
    if kind == 'measure':
        m = sk(L, 'M')
        return ds(L, m), ds(L, sk_other(L, m))
    if kind == 'tz':
        return ds(L, L.new('Time', 'UTC')), ds(L, L.new('Time', None))
    if kind == 'encoding':
        return ds(L, L.new('String', 3, 'A')), ds(L, L.new('String', 3, 'U8'))
    if kind == 'length':
        return ds(L, L.new('String', 3, 'A')), ds(L, L.new('String', 4, 'A'))
    if kind == 'unit':
        return (ds(L, L.new('TimeDelta', 's')),
                ds(L, L.new('TimeDelta', 'ns')))
    if kind == 'dim':
        m = sk(L, 'M')
        return ds(L, fx(L, 3), m), ds(L, L.new('Var'), m)
    if kind == 'order':
        a, b = sk(L, 'A'), sk(L, 'B')
        return rec(L, ('p', a), ('q', b)), rec(L, ('q', b), ('p', a))


PART = {'measure': None, 'tz': 'check_tz', 'encoding': 'check_str_encoding',
        'length': 'check_str_fixlen', 'unit': 'check_timedelta_unit',
        'dim': 'check_dim', 'order': 'check_record_order'}
MANY = {
    'record': lambda L, xs: L.new('Record', L.list(
        [('f%02d' % k, x) for k, x in enumerate(xs)])),
    'tuple': lambda L, xs: L.new('Tuple', L.list(xs)),
    'function': lambda L, xs: L.new('Function', *xs),
}


def one_of_many(kind, n, where, what, flags, turned=False):
    """The part at `where` differs; the others are of every class."""
    def f(L):
        others = [ds(L, L.api('int32')), ds(L, L.new('Option', sk(L, 'O'))),
                  ds(L, L.new('Var'), L.new('Time', 'CET')),
                  rec(L, ('u', L.new('String', 7, 'U16')))]
        a, b = part(L, what) if what else (others[0], others[0])
        xs = [others[k % 4] for k in range(n)]
        ys = list(xs)
        xs[where], ys[where] = a, b
        if turned:
            fs = [('f%02d' % k, x) for k, x in enumerate(ys)]
            m = L.new('Record', L.list(fs[turned:] + fs[:turned]))
        else:
            m = MANY[kind](L, ys)
        want = (what is None or PART[what] in flags) and (
            not turned or 'check_record_order' in flags)
        passes(L, ds(L, MANY[kind](L, xs)), ds(L, m), want, flags)
    return f


def prefix(kind, n, m, flags):
    """The first m of n parts."""
    def f(L):
        x = sk(L, 'M')
        a, b = (ds(L, MANY[kind](L, [x] * k)) for k in (n, m))
        passes(L, a, b, False, flags)
        passes(L, b, a, False, flags)
    return f


def long_dims(n, where, kind, flags):
    def f(L):
        m = sk(L, 'M')
        xs = [fx(L, 2), L.new('Var'), L.new('TypeVar', 'T')]
        a = [xs[k % 3] for k in range(n)]
        b = list(a)
        if kind == 'value':
            a[where], b[where] = fx(L, 11), fx(L, 12)
        elif kind == 'kind':
            a[where], b[where] = fx(L, L.int('n', 0)), L.new('Ellipsis')
        elif kind == 'symbol':
            a[where], b[where] = L.new('TypeVar', 'A'), L.new('TypeVar', 'B')
        elif kind == 'missing':
            del b[where]
        passes(L, ds(L, *a + [m]), ds(L, *b + [m]),
               kind == 'same' or 'check_dim' in flags, flags)
    return f


def named_order(names, order, flags):
    def f(L):
        fs = [(n, sk(L, 'F%d' % k)) for k, n in enumerate(names)]
        passes(L, rec(L, *fs), rec(L, *[fs[k] for k in order]),
               list(order) == sorted(order) or
               'check_record_order' in flags, flags)
    return f


NAMES = [['a', 'A'], ['b', 'B', 'a'], ['x1', 'x10', 'x2'], ['', ' '],
         ['\xe9', 'e', 'z'], ['a', 'a ', 'A '], ['_', 'Z', 'a'],
         ['10', '9', '-1']]


def long_cases(deep):
    for kind in MANY:
        for n in (3, 6, 12) if not deep else (2, 3, 5, 6, 9, 12, 17):
            for w in range(n):
                for what, flag in PART.items():
                    if not deep and n == 12 and (w + len(what)) % 3 and \
                            what != 'measure':
                        continue
                    sets = [(), tuple(FLAGS)]
                    if flag:
                        sets += [(flag,), tuple(f for f in FLAGS
                                                if f != flag)]
                    for fl in sets:
                        yield Case('%s of %d, %s at %d, %s off' % (
                            kind, n, what, w, ' '.join(fl)),
                            one_of_many(kind, n, w, what, fl))
            for m in range(kind == 'function', n):
                for fl in ((), tuple(FLAGS)):
                    yield Case('%s of %d against %d, %s' % (kind, n, m, fl),
                               prefix(kind, n, m, fl))
    for n in (4, 7, 12):
        for t in (1, n // 2, n - 1):
            for what in (None, 'measure', 'length', 'dim', 'unit'):
                for w in (0, n - 1, n // 2):
                    for fl in ((), ('check_record_order',), tuple(FLAGS)):
                        yield Case('record of %d turned by %d, %s at %d, %s '
                                   'off' % (n, t, what, w, ' '.join(fl)),
                                   one_of_many('record', n, w, what, fl, t))
    for n in (4, 6, 8, 12):
        for w in range(n):
            for kind in ('same', 'value', 'kind', 'symbol', 'missing'):
                for fl in ((), ('check_dim',), tuple(FLAGS[1:])):
                    yield Case('%d dimensions, %s at %d, %s off' % (
                        n, kind, w, ' '.join(fl)), long_dims(n, w, kind, fl))
    for ns in NAMES:
        for o in permutations(range(len(ns))):
            for fl in ((), ('check_record_order',), tuple(FLAGS),
                       tuple(FLAGS[:-1])):
                yield Case('names %r in order %s, %s off' % (ns, o, fl),
                           named_order(ns, o, fl))


def flag_sets(need):
    """Sets of options to switch off that matter."""
    out = [()] + [(f,) for f in FLAGS]
    out.append(tuple(FLAGS))
    if need:
        out += [tuple(need), tuple(f for f in FLAGS if f not in need)]
        if len(need) > 1:
            out += [tuple(f for f in FLAGS if f != x) for x in need]
    return sorted(set(out))


def cases(L, tier):
    deep = tier == 'thorough'
    for c in long_cases(deep):
        yield c
    ss = shapes()
    for s in ss:
        for form in ('bare', 'wrapped', 'fixed'):
            if form != 'bare' and not s.measure:
                continue
            yield Case('%s %s itself' % (form, s.name), equal(s, form))
            for k in range(len(s.slots)):
                yield Case('%s %s other %s' % (form, s.name, s.slots[k].name),
                           one_differs(s, k, form))
        for t in ss:
            if s is t:
                continue
            if s.name.startswith('String') and t.name.startswith('String'):
                continue
            if s.name[:-1] == 'Categorical' or t.name[:-1] == 'Categorical':
                continue
            for form in ('bare', 'wrapped'):
                if form == 'wrapped' and not (s.measure and t.measure):
                    continue
                yield Case('%s %s against %s' % (form, s.name, t.name),
                           classes(s, t, form, ()))
                yield Case('%s %s against %s, all off' % (
                    form, s.name, t.name), classes(s, t, form, FLAGS))
    shapes3 = ['', 'F', 'V', 'T', 'E', 'FF', 'FV', 'VF', 'TF', 'FFF', 'FVF']
    for p, q in product(shapes3, repeat=2):
        for fl in ((), ('check_dim',), tuple(FLAGS[1:])):
            yield Case('dims %s against %s %s' % (p, q, fl), dims(p, q, fl))
    for n, (fn, need) in DIFFS.items():
        for fl in flag_sets(need):
            for swap in (0, 1):
                for outer in (0, 1):
                    yield Case('%s, %s off, %d%d' % (n, ' '.join(fl), swap,
                                                     outer),
                               differ(n, (), fl, swap, outer))
            for c in CTX:
                yield Case('%s in %s, %s off' % (n, c, ' '.join(fl)),
                           differ(n, (c,), fl, 0, 0))
                if deep or len(fl) == 1 or fl == tuple(FLAGS):
                    for d in CTX:
                        if not deep and (hash_name(n + c + d) % 4):
                            continue
                        yield Case('%s in %s in %s, %s off' % (
                            n, d, c, ' '.join(fl)),
                            differ(n, (c, d), fl, 0, 0))
        for c in CTX:
            for fl in ((), tuple(FLAGS)):
                yield Case('%s same in %s' % (n, c), same(n, (c,), fl))


def hash_name(s):
    return sum(ord(c) * (k + 1) for k, c in enumerate(s))
