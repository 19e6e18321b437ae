"""C02: equality is structural and agrees with hashing."""
from ..explore import Case, Violation
from ..values import *
from .common import *

EXPLAIN = (
    'Abstract interpretation of ==, != and hash over every pair of datashape '
    'classes with unknown parameters (each parameter the same symbol or a '
    'certainly different one, elements being skolem types), compared with '
    'structural equality: equal iff same class and same parameters, '
    'symmetric, != its negation, equal values have equal hash terms also when '
    'one was hashed before; dimension lists of length 0..3 with each '
    'dimension the same or different; elements against their datashape; '
    'fixed dimensions against integers.')
FLOOR = {'quick': 500, 'thorough': 500}


def judge(L, a, b, want, what, hashed=None):
    """Compare both ways, with hashing before and after."""
    if hashed is None:
        hashed = L.i.choose(2, 'hash the first before comparing')
    if hashed:
        hash_of(L, a)
    r = L.eq(a, b)
    L.check(r == want, '%s: %s == %s is %s' % (
        what, L.show(a), L.show(b), r))
    L.check(L.eq(b, a) == want, '%s: %s == %s is %s but the reverse is not' % (
        what, L.show(b), L.show(a), not want))
    L.check(L.ne(a, b) == (not want), '%s: %s != %s is %s' % (
        what, L.show(a), L.show(b), want))
    L.check(L.ne(b, a) == (not want), '%s: %s != %s is %s' % (
        what, L.show(b), L.show(a), want))
    if want:
        L.check(same_hash(L, hash_of(L, a), hash_of(L, b)),
                '%s: %s and %s are equal but hash differently' % (
                    what, L.show(a), L.show(b)))
    else:
        hash_of(L, b)


def same_class(s):
    def f(L):
        vals, a = s.make(L)
        other, same = [], True
        for slot, v in zip(s.slots, vals):
            if L.i.choose(2, '%s differs' % slot.name):
                other.append(slot.differ(L, v))
                same = False
            else:
                other.append(v)
        b = s.build(L, *other)
        judge(L, a, b, same, s.name)
    return f


def two_classes(s, t):
    def f(L):
        _, a = s.make(L)
        _, b = t.make(L)
        judge(L, a, b, False, '%s and %s' % (s.name, t.name))
    return f


def wrapped(s):
    def f(L):
        vals, a = s.make(L)
        b = L.new('DataShape', s.build(L, *vals))
        judge(L, a, b, True, '%s and its datashape' % s.name)
        judge(L, b, L.new('DataShape', a), True, 'datashapes of ' + s.name)
    return f


def wrapped_differs(s):
    def f(L):
        vals, a = s.make(L)
        k = L.i.choose(len(s.slots), 'which parameter differs')
        other = list(vals)
        other[k] = s.slots[k].differ(L, vals[k])
        b = L.new('DataShape', s.build(L, *other))
        judge(L, a, b, False, '%s and the datashape of another' % s.name)
    return f


def shaped(n, s):
    """n fixed dimensions and a measure; each dimension may differ."""
    def f(L):
        vals, m = s.make(L)
        da = [L.int('d%d' % k, 0) for k in range(n)]
        db, same = [], True
        for k, d in enumerate(da):
            if L.i.choose(2, 'dimension %d differs' % k):
                db.append(other_int(L, d, 'k%d' % k))
                same = False
            else:
                db.append(d)
        mb = vals
        if s.slots and L.i.choose(2, 'measure differs'):
            mb = [s.slots[0].differ(L, vals[0])] + vals[1:]
            same = False
        a = L.new('DataShape', *[L.new('Fixed', d) for d in da] + [m])
        b = L.new('DataShape', *[L.new('Fixed', d) for d in db] +
                  [s.build(L, *mb)])
        judge(L, a, b, same, '%d dimensions' % n)
    return f


def dim_kinds(s, t):
    """One dimension of kind s against one of kind t."""
    def f(L):
        m = sk(L, 'M')
        vs, ds = s.make(L)
        if s is t:
            vt, same = [], True
            for slot, v in zip(s.slots, vs):
                if L.i.choose(2, '%s differs' % slot.name):
                    vt.append(slot.differ(L, v))
                    same = False
                else:
                    vt.append(v)
            dt = t.build(L, *vt)
        else:
            _, dt = t.make(L)
            same = False
        a = L.new('DataShape', ds, m)
        b = L.new('DataShape', dt, m)
        judge(L, a, b, same, 'dimension %s and %s' % (s.name, t.name))
    return f


def lengths(n, k):
    def f(L):
        m = sk(L, 'M')
        d = [L.int('d%d' % j, 0) for j in range(max(n, k))]
        side = L.i.choose(2, 'common at the front or the back')
        x = d[:n] if side == 0 else d[len(d) - n:]
        y = d[:k] if side == 0 else d[len(d) - k:]
        a = L.new('DataShape', *[L.new('Fixed', v) for v in x] + [m])
        b = L.new('DataShape', *[L.new('Fixed', v) for v in y] + [m])
        judge(L, a, b, False, '%d and %d dimensions' % (n, k))
    return f


def swapped(n):
    def f(L):
        x, k = L.int('x', 0), L.int('k', 1)
        y = L.i.binop('+', x, k)
        m = sk(L)
        a = L.new('DataShape', L.new('Fixed', x), L.new('Fixed', y), m)
        b = L.new('DataShape', L.new('Fixed', y), L.new('Fixed', x), m)
        judge(L, a, b, False, 'dimensions swapped')
    return f


def record_order(L):
    a, b = L.text('a', IDENT), None
    b = other_text(L, a, 'b', IDENT)
    x, y = sk(L, 'X'), sk(L, 'Y')
    p = L.new('Record', L.list([(a, x), (b, y)]))
    q = L.new('Record', L.list([(b, y), (a, x)]))
    judge(L, p, q, False, 'fields in another order')


def record_subset(L):
    a = L.text('a', IDENT)
    b = other_text(L, a, 'b', IDENT)
    x, y = sk(L, 'X'), sk(L, 'Y')
    p = L.new('Record', L.list([(a, x), (b, y)]))
    q = L.new('Record', L.list([(a, x)]))
    judge(L, p, q, False, 'a field more')


def fixed_int(L):
    n = L.int('n', 0)
    f = L.new('Fixed', n)
    same = L.i.choose(2, 'same integer') == 0
    m = n if same else other_int(L, n, 'k')
    for x, y in ((f, m), (m, f)):
        L.check(L.eq(x, y) == same, '%s == %s is %s' % (
            L.show(x), L.show(y), not same))
        L.check(L.ne(x, y) == (not same), '%s != %s is %s' % (
            L.show(x), L.show(y), same))
    if same:
        L.check(same_hash(L, hash_of(L, f), hash_of(L, m)),
                'Fixed(n) equals n but hashes differently')
        g = L.new('Fixed', n)
        L.check(same_hash(L, hash_of(L, f), hash_of(L, g)),
                'equal fixed dimensions hash differently')


def fixed_wrapped(L):
    n = L.int('n', 0)
    d = L.new('DataShape', L.new('Fixed', n), sk(L))
    L.check(L.eq(L.i.getitem(d, 0), n), 'the dimension of n * X is not n')


def named(L):
    name = L.text('name', rx.from_regex('[A-Z][a-z]{12}'))
    m = sk(L)
    n = L.int('n', 0)
    a = L.new('DataShape', L.new('Fixed', n), m, name=name)
    b = L.new('DataShape', L.new('Fixed', n), m)
    judge(L, a, b, True, 'a named datashape and the same unnamed')


def not_type(s):
    def f(L):
        _, a = s.make(L)
        for o in (None, 'int32', (), L.list([])):
            L.check(not L.eq(a, o), '%s == %s' % (L.show(a), L.show(o)))
            L.check(L.ne(a, o), 'not %s != %s' % (L.show(a), L.show(o)))
    return f


def nested(s, outer):
    """A parameter that differs deep inside is seen."""
    def f(L):
        vals, a = s.make(L)
        k = L.i.choose(len(s.slots) + 1, 'which parameter differs')
        other = list(vals)
        if k:
            other[k - 1] = s.slots[k - 1].differ(L, vals[k - 1])
        b = s.build(L, *other)
        name, wrap = outer
        judge(L, wrap(L, a), wrap(L, b), k == 0, '%s in %s' % (s.name, name))
    return f


OUTER = [
    ('option', lambda L, x: L.new('Option', x)),
    ('record', lambda L, x: L.new('Record', L.list([('f', x)]))),
    ('tuple', lambda L, x: L.new('Tuple', L.list([x]))),
    ('function', lambda L, x: L.new('Function', x, L.api('int32'))),
    ('map', lambda L, x: L.new('Map', L.api('int32'), x)),
    ('shaped field', lambda L, x: L.new('Record', L.list(
        [('f', L.new('DataShape', L.new('Fixed', 3), x))]))),
]


def option_shaped(L):
    """An option of a type with dimensions, and its datashape."""
    t = L.new('DataShape', L.new('Fixed', L.int('n', 0)), sk(L, 'M'))
    a = L.new('Option', t)
    b = L.new('DataShape', L.new('Option', t))
    if not (L.eq(a, b) and L.eq(b, a)):
        raise Violation('%s and its datashape are not equal' % L.show(a),
                        'option-with-dimensions')


INTS = [0, 1, 2, 3, 10, 11, 255, 256, 2 ** 31 - 1, 2 ** 31, 2 ** 32,
        2 ** 32 + 1, 2 ** 61 - 1, 2 ** 61, 2 ** 63, 2 ** 64, 2 ** 64 + 1,
        10 ** 20]
STRS = [None, '', ' ', 'None', 'a', 'A', ' a', 'a ', 'aa', 'a\n', 'ab', 'ba',
        'e\u0301', '\u00e9', '1', '01', '1.0', 'True', 'UTC', 'utc', '\x00',
        'a\x00', 'x' * 40, 'x' * 41]
SYMBOLS = ['A', 'B', 'AB', 'Ab', 'AA', 'A_', 'A1', 'A10', 'A' * 40, 'A' * 41]


def pairs(values, build, what):
    """Every two of the values make different types."""
    def f(L):
        k = L.i.choose(len(values), 'value')
        a = build(L, values[k])
        for j, v in enumerate(values):
            b = build(L, v)
            judge(L, a, b, j == k, what, j > k)
            judge(L, L.new('DataShape', a), b, j == k, what, j & 1)
    return f


def dim_pairs(L):
    k = L.i.choose(len(INTS), 'value')
    m = L.api('int32')
    a = L.new('DataShape', L.new('Fixed', INTS[k]), m)
    for j, v in enumerate(INTS):
        judge(L, a, L.new('DataShape', L.new('Fixed', v), m), j == k,
              'dimension %d and %d' % (INTS[k], v), j & 1)
        for w in (v, -v):
            L.check(L.eq(L.new('Fixed', INTS[k]), w) == (INTS[k] == w) and
                    L.eq(w, L.new('Fixed', INTS[k])) == (INTS[k] == w),
                    'Fixed(%d) == %d' % (INTS[k], w))
    for j, v in enumerate(INTS):
        judge(L, L.new('Fixed', INTS[k]), L.new('Fixed', v), j == k,
              'Fixed(%d) and Fixed(%d)' % (INTS[k], v), j & 1)


def long_sequence(n, parts, build, what):
    """Only the part at one position differs, or a part more."""
    def f(L):
        xs = parts(L, n)
        k = L.i.choose(n + 3, 'which part differs')
        ys = parts(L, n)
        if k < n:
            ys[k] = parts(L, n, 1)[k]
        elif k == n:
            ys = ys[:-1]
        elif k == n + 1:
            ys = ys[1:]
        judge(L, build(L, xs), build(L, ys), k == n + 2, '%s of %d, %s' % (
            what, n, 'position %d' % k))
    return f


def swapped_pair(n, parts, build, what):
    def f(L):
        xs = parts(L, n)
        ys = parts(L, n)
        j = L.i.choose(n, 'which part')
        k = L.i.choose(n, 'other part')
        ys[j], ys[k] = ys[k], ys[j]
        judge(L, build(L, xs), build(L, ys), j == k, '%s of %d, %d and %d '
              'swapped' % (what, n, j, k))
    return f


def long_kinds():
    m = lambda L, x: L.new('Option', L.new('DateTime', 'tz%d' % x))
    types = lambda L, n, d=0: [m(L, 100 * d + k) for k in range(n)]
    yield 'dimensions', lambda L, n, d=0: [
        (L.new('Fixed', k), L.new('TypeVar', 'N%d' % k))[k + d & 1]
        for k in range(n)], lambda L, xs: L.new(
            'DataShape', *(xs + [L.api('string')]))
    yield 'lengths', lambda L, n, d=0: [L.new('Fixed', k + 50 * d)
                                        for k in range(n)], \
        lambda L, xs: L.new('DataShape', *(xs + [L.api('string')]))
    yield 'fields', types, lambda L, xs: L.new('Record', L.list(
        [('n%d' % k, x) for k, x in enumerate(xs)]))
    yield 'names', lambda L, n, d=0: ['n%d%s' % (k, ' ' * d)
                                      for k in range(n)], \
        lambda L, xs: L.new('Record', L.list(
            [(x, L.api('int32')) for x in xs]))
    yield 'items', types, lambda L, xs: L.new('Tuple', L.list(xs))
    yield 'arguments', types, lambda L, xs: L.new('Function', *xs)
    yield 'categories', lambda L, n, d=0: [('c%d' % k, k)[d]
                                           for k in range(n)], \
        lambda L, xs: L.new('Categorical', L.list(xs), L.api('string'))


def deep(n):
    def f(L):
        k = L.i.choose(2, 'differs')
        a, b = L.api('int32'), L.api('int64' if k else 'int32')
        for j in range(n):
            w = OUTER[j % len(OUTER)][1]
            a, b = w(L, a), w(L, b)
        judge(L, a, b, not k, 'nested %d deep' % n)
    return f


def cases(L, tier):
    for cls in ('Time', 'DateTime'):
        yield Case('%s zones' % cls, pairs(
            STRS, lambda L, v, cls=cls: L.new(cls, v), 'time zone'),
            relaxed=True)
    yield Case('units', pairs(STRS[1:], lambda L, v: L.new('Units', v),
                              'unit'), relaxed=True)
    yield Case('names', pairs(STRS[1:], lambda L, v: L.new('Record', L.list(
        [(v, L.api('int32'))])), 'field name'), relaxed=True)
    yield Case('symbols', pairs(SYMBOLS, lambda L, v: L.new('TypeVar', v),
                                'symbol'), relaxed=True)
    yield Case('categories', pairs(
        STRS[1:] + INTS, lambda L, v: L.new('Categorical', L.list(['c', v]),
                                            L.api('string')), 'category'),
        relaxed=True)
    yield Case('string lengths', pairs([None] + INTS, lambda L, v: L.new(
        'String', v, 'A'), 'length'), relaxed=True)
    yield Case('precisions', pairs(INTS + [-1], lambda L, v: L.new(
        'Decimal', v, 0), 'precision'), relaxed=True)
    yield Case('scales', pairs(INTS + [-1], lambda L, v: L.new(
        'Decimal', 5, v), 'scale'), relaxed=True)
    yield Case('fixed dimensions', dim_pairs, relaxed=True)
    for what, parts, build in long_kinds():
        for n in (2, 5, 7, 12):
            yield Case('%s of %d' % (what, n), long_sequence(
                n, parts, build, what), relaxed=True)
        for n in (3, 6):
            yield Case('%s of %d swapped' % (what, n), swapped_pair(
                n, parts, build, what), relaxed=True)
    for n in (2, 3, 5, 8, 12):
        yield Case('nested %d deep' % n, deep(n))
    yield Case('option with dimensions', option_shaped)
    ss = shapes()
    for s in ss:
        yield Case('%s with itself' % s.name, same_class(s))
        if s.measure:
            yield Case('%s and its datashape' % s.name, wrapped(s))
            if s.slots:
                yield Case('%s and another wrapped' % s.name,
                           wrapped_differs(s))
            for o in OUTER:
                yield Case('%s in %s' % (s.name, o[0]), nested(s, o))
        yield Case('%s and no type' % s.name, not_type(s))
    for i, s in enumerate(ss):
        for t in ss[i + 1:]:
            yield Case('%s and %s' % (s.name, t.name), two_classes(s, t))
    one = Shape('skolem', [sk_slot('M')], lambda L, x: x)
    for n in range(1, 5):
        yield Case('%d dimensions' % n, shaped(n, one))
    ds = dims()
    for i, s in enumerate(ds):
        for t in ds[i:]:
            yield Case('dimension %s and %s' % (s.name, t.name),
                       dim_kinds(s, t))
    for n in range(0, 4):
        for k in range(n + 1, 5):
            yield Case('%d and %d dimensions' % (n, k), lengths(n, k))
    yield Case('swapped dimensions', swapped(2))
    yield Case('record order', record_order)
    yield Case('record subset', record_subset)
    yield Case('fixed and int', fixed_int)
    yield Case('dimension of a datashape', fixed_wrapped)
    yield Case('named', named)
