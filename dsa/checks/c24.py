"""C24: datashapes are well formed and multiplication composes them."""
from itertools import product
from ..explore import Case, Violation
from ..values import *
from .common import *

EXPLAIN = (
    'Abstract interpretation of the datashape constructor and of '
    'multiplication on every list of up to three dimensions of every kind '
    '(unknown lengths, symbols; objects, integers, one-element datashapes) '
    'over every class of measure with unknown parameters: the result must '
    'hold exactly the given dimensions in order and the measure.  Every class '
    'of dimension in the last position, every class of measure at every '
    'position before it, unknown negative lengths and values that are no type '
    'must raise TypeError or ValueError.')
FLOOR = {'quick': 400, 'thorough': 400}

DIMS = {
    'fixed': lambda L, k: fixed(L, k, 0),
    'int': lambda L, k: fixed(L, k, 1),
    'var': lambda L, k: (L.new('Var'),) * 2,
    'typevar': lambda L, k: (L.new('TypeVar', L.text('T%d' % k, UPPER)),) * 2,
    'ellipsis': lambda L, k: (L.new('Ellipsis'),) * 2,
    'named ellipsis': lambda L, k: (L.new('Ellipsis', L.new(
        'TypeVar', L.text('E%d' % k, UPPER))),) * 2,
    'wrapped typevar': lambda L, k: wrapped_typevar(L, k),
}


def fixed(L, k, given):
    n = L.int('d%d' % k, 0)
    f = L.new('Fixed', n)
    return (n if given else f), f


def wrapped_typevar(L, k):
    t = L.new('TypeVar', L.text('T%d' % k, UPPER))
    return L.new('DataShape', t), t


def holds(L, ds, dims, m, what):
    L.check(L.isinst(ds, 'DataShape'), '%s is %s' % (what, L.show(ds)))
    ps = L.items(L.attr(ds, 'parameters'))
    want = list(dims) + [m]
    L.check(len(ps) == len(want), '%s has %d parts, not %d: %s' % (
        what, len(ps), len(want), L.show(ds)))
    for k, (a, b) in enumerate(zip(ps, want)):
        L.check(same_class(L, a, b) and L.eq(a, b),
                'part %d of %s is %s, not %s' % (k, what, L.show(a),
                                                 L.show(b)))
    sh = L.items(L.attr(ds, 'shape'))
    L.check(len(sh) == len(dims), 'the shape of %s is %s' % (what,
                                                            L.show(sh)))
    for a, b in zip(sh, dims):
        L.check(L.eq(a, b), 'the shape of %s is %s' % (what, L.show(sh)))
    ms = L.attr(ds, 'measure')
    L.check(same_class(L, ms, m) and L.eq(ms, m),
            'the measure of %s is %s' % (what, L.show(ms)))
    L.check(L.i.res(L.i.len_(ds)) == len(want), 'the length of %s is %s' % (
        what, L.show(L.i.len_(ds))))
    for k in range(len(want)):
        x = L.i.res(L.i.getitem(ds, k))
        L.check(L.eq(x, want[k]), '%s[%d] is %s' % (what, k, L.show(x)))


def same_class(L, a, b):
    return L.i.type_of(a) is L.i.type_of(b)


HOW = {
    'constructor': lambda L, xs: L.call('DataShape', *xs),
    'list': lambda L, xs: L.call('dshape', L.list(xs)),
    'tuple': lambda L, xs: L.call('dshape', tuple(xs)),
}


def build(kinds, shape, how, form):
    def f(L):
        ds = [DIMS[c](L, k) for k, c in enumerate(kinds)]
        _, m = shape.make(L)
        given = L.new('DataShape', m) if form == 'wrapped' else m
        if form == 'nested':
            # part of the dimensions come with the measure
            cut = len(ds) // 2
            given = L.new('DataShape', *[d[0] for d in ds[cut:]] + [m])
            xs = [d[0] for d in ds[:cut]] + [given]
        else:
            xs = [d[0] for d in ds] + [given]
        what = '%s of %s' % (how, L.show(xs))
        holds(L, HOW[how](L, xs), [d[1] for d in ds], m, what)
    return f


def rejects(L, kind, v, what):
    L.check(kind == 'raise', '%s is accepted: %s' % (what, L.show(v)))
    L.check(L.exc_is(v, TypeError, ValueError), '%s raises %s' % (
        what, L.exc_text(v)))


def dim_last(dim, n):
    def f(L):
        xs = [L.new('Fixed', L.int('n%d' % k, 0)) for k in range(n)]
        xs.append(DIMS[dim](L, n)[0])
        rejects(L, *L.outcome('DataShape', *xs), what='%s last' % dim)
    return f


def measure_first(shape, n, pos, form):
    def f(L):
        xs = [L.new('Fixed', L.int('n%d' % k, 0)) for k in range(n)]
        _, m = shape.make(L)
        xs[pos] = L.new('DataShape', m) if form == 'wrapped' else m
        if form == 'shaped':
            xs[pos] = L.new('DataShape', L.new('Fixed', 4), m)
        xs.append(L.pick('measure', [L.api('int32'), sk(L, 'M'),
                                     L.new('Option', sk(L, 'O'))]))
        rejects(L, *L.outcome('DataShape', *xs), what='%s at %d of %d' % (
            L.show(xs[pos]), pos, n))
    return f


NOT_TYPES = [None, 1.5, b'3', (), 3j]


def not_type(n, pos):
    def f(L):
        xs = [L.new('Fixed', L.int('n%d' % k, 0)) for k in range(n)] + \
            [sk(L, 'M')]
        xs[pos] = L.pick('value', NOT_TYPES + [L.list([]), L.dict([])])
        rejects(L, *L.outcome('DataShape', *xs), what='%s at %d' % (
            L.show(xs[pos]), pos))
    return f


def negative(n, pos):
    def f(L):
        xs = [L.int('n%d' % k, 0) for k in range(n)] + [sk(L, 'M')]
        xs[pos] = L.int('negative', None, -1)
        rejects(L, *L.outcome('DataShape', *xs), what='a negative dimension')
        rejects(L, *L.outcome('Fixed', xs[pos]), what='a negative Fixed')
    return f


def fixed_of(L):
    bad = L.pick('value', [None, 1.5, '3', b'3', (), 3j, L.list([])])
    rejects(L, *L.outcome('Fixed', bad), what='Fixed(%s)' % L.show(bad))


def fixed_keeps(L):
    n = L.int('n', 0)
    f = L.call('Fixed', n)
    L.check(L.eq(L.attr(f, 'val'), n), 'Fixed(n) is %s' % L.show(f))
    L.check(L.eq(L.i.call(int, [f], {}), n), 'int(Fixed(n)) is not n')


def empty(L):
    rejects(L, *L.outcome('DataShape'), what='no parameter')
    rejects(L, *L.outcome('DataShape', L.text('text')), what='a text')
    rejects(L, *L.outcome('dshape', L.list([])), what='an empty list')


# ------------------------------------------------------- multiplication

def times(L, a, b):
    try:
        return L.i.res(L.i.binop('*', a, b))
    except Raised as e:
        raise Violation('%s * %s raises %s' % (L.show(a), L.show(b),
                                               L.exc_text(e.exc)))


RIGHT = {
    'unit': lambda L: (sk(L, 'U', unit=True),) * 2,
    'composite': lambda L: (sk(L, 'M'),) * 2,
    'datashape': lambda L: right_ds(L),
}


def right_ds(L):
    m = sk(L, 'M')
    return L.new('DataShape', m), m


def product_case(kinds, right, inner):
    """kinds * (inner * right)"""
    def f(L):
        dims = [DIMS[c](L, k) for k, c in enumerate(kinds)]
        more = [DIMS[c](L, len(kinds) + k) for k, c in enumerate(inner)]
        x, m = RIGHT[right](L)
        if inner:
            x = L.new('DataShape', *[d[1] for d in more] + [m])
        for d in reversed(dims):
            x = times(L, d[0], x)
        holds(L, x, [d[1] for d in dims + more], m,
              ' * '.join(kinds + list(inner) + [right]))
    return f


def shape_right(shape, kind):
    def f(L):
        d = DIMS[kind](L, 0)
        _, m = shape.make(L)
        holds(L, times(L, d[0], m), [d[1]], m, '%s * %s' % (kind,
                                                          shape.name))
    return f


TEXTS = {
    'int32': ([], 'int32'),
    '3 * int32': ([('Fixed', 3)], 'int32'),
    'var * 4 * float64': ([('Var',), ('Fixed', 4)], 'float64'),
}


def text_right(kind, text):
    def f(L):
        d = DIMS[kind](L, 0)
        dims, m = TEXTS[text]
        holds(L, times(L, d[0], text),
              [d[1]] + [L.new(*x) for x in dims], L.api(m),
              '%s * %r' % (kind, text))
    return f


def text_left(right):
    """A text that names a dimension."""
    def f(L):
        x, m = RIGHT[right](L)
        got = times(L, 'N', x)
        holds(L, got, [L.new('TypeVar', 'N')], m, "'N' * " + right)
        d = L.new('Fixed', L.int('n', 0))
        got = times(L, 'N', L.new('DataShape', d, m))
        holds(L, got, [L.new('TypeVar', 'N'), d], m, "'N' * shaped")
    return f


def text_left_shape(shape):
    def f(L):
        _, m = shape.make(L)
        got = times(L, 'N', m)
        holds(L, got, [L.new('TypeVar', 'N')], m, "'N' * " + shape.name)
    return f


def wrong_product(left, right):
    """A measure on the left of anything."""
    def f(L):
        a = {'measure': lambda: sk(L, 'A'),
             'unit': lambda: L.api('int32'),
             'option': lambda: L.new('Option', sk(L, 'O')),
             'shaped': lambda: L.new('DataShape', L.new('Fixed', 2),
                                     sk(L, 'A')),
             'wrapped': lambda: L.new('DataShape', L.api('int32')),
             }[left]()
        b = {'unit': lambda: L.api('int64'), 'option': lambda: L.new(
            'Option', sk(L, 'P')), 'shaped': lambda: L.new(
                'DataShape', L.new('Var'), sk(L, 'B')),
             'fixed': lambda: L.new('Fixed', L.int('n', 0)),
             'var': lambda: L.new('Var')}[right]()
        try:
            v = L.i.res(L.i.binop('*', a, b))
        except Raised as e:
            rejects(L, 'raise', e.exc, '%s * %s' % (left, right))
        else:
            rejects(L, 'ret', v, '%s * %s' % (left, right))
    return f


UNWRAP = {
    'Option': lambda L, x: L.attr(L.call('Option', x), 'ty'),
    'Map key': lambda L, x: L.attr(L.call('Map', x, L.api('int32')), 'key'),
    'Map value': lambda L, x: L.attr(L.call('Map', L.api('int32'), x),
                                     'value'),
    'Record': lambda L, x: L.items(L.attr(L.call('Record', L.list(
        [('a', x)])), 'types'))[0],
    'DataShape': lambda L, x: L.attr(L.call(
        'DataShape', L.new('Fixed', 3), x), 'measure'),
    'DataShape alone': lambda L, x: L.attr(L.call('DataShape', x),
                                           'measure'),
}


def unwrapped(shape, where):
    def f(L):
        _, m = shape.make(L)
        got = UNWRAP[where](L, L.new('DataShape', m))
        L.check(same_class(L, got, m) and L.eq(got, m),
                'a one-element datashape in %s is kept as %s' % (
                    where, L.show(got)))
    return f


def dshape_of(shape):
    def f(L):
        _, m = shape.make(L)
        d = L.call('dshape', m)
        L.check(L.eq(L.attr(d, 'measure'), m) and
                not L.items(L.attr(d, 'shape')),
                'dshape(%s) is %s' % (L.show(m), L.show(d)))
        x = L.new('DataShape', L.new('Var'), m)
        L.check(L.call('dshape', x) is x, 'dshape copies a datashape')
    return f


def dshape_bad(L):
    bad = L.pick('value', [None, 1.5, b'int32', 3j, L.dict([])])
    rejects(L, *L.outcome('dshape', bad), what='dshape(%s)' % L.show(bad))


def negative_product(right, n):
    """A negative integer times something."""
    def f(L):
        x, m = RIGHT[right](L)
        for k in range(n):
            x = times(L, L.new('Fixed', L.int('d%d' % k, 0)), x)
        neg = L.int('negative', None, -1)
        try:
            v = L.i.res(L.i.binop('*', neg, x))
        except Raised as e:
            rejects(L, 'raise', e.exc, 'a negative integer * %s' % right)
        else:
            rejects(L, 'ret', v, 'a negative integer * %s' % right)
    return f


def dim_times_negative(kind):
    def f(L):
        d = DIMS[kind](L, 0)[0]
        try:
            v = L.i.res(L.i.binop('*', d, L.int('negative', None, -1)))
        except Raised as e:
            rejects(L, 'raise', e.exc, '%s * a negative integer' % kind)
        else:
            rejects(L, 'ret', v, '%s * a negative integer' % kind)
    return f


def measures_at(n, pos, which):
    def f(L):
        xs = [L.new('Fixed', L.int('n%d' % k, 0)) for k in range(n)]
        xs[pos] = {'unit': lambda: L.api('int32'),
                   'composite': lambda: sk(L, 'X'),
                   'option': lambda: L.new('Option', sk(L, 'X')),
                   'record': lambda: L.new('Record', L.list(
                       [('a', sk(L, 'X'))])),
                   'wrapped': lambda: L.new('DataShape', sk(L, 'X')),
                   'shaped': lambda: L.new('DataShape', L.new('Fixed', 4),
                                           sk(L, 'X')),
                   'nothing': lambda: None, 'number': lambda: 1.5,
                   'negative': lambda: L.int('negative', None, -1),
                   'function': lambda: L.new('Function', sk(L, 'X'),
                                             sk(L, 'Y')),
                   }[which]()
        xs.append(sk(L, 'M'))
        rejects(L, *L.outcome('DataShape', *xs), what='%s at %d of %d' % (
            which, pos, n))
    return f


MIXED = ['fixed', 'var', 'typevar', 'int', 'wrapped typevar', 'var',
         'fixed', 'ellipsis', 'fixed', 'typevar', 'var', 'int']


def long_cases():
    one = Shape('skolem', [], lambda L: sk(L, 'M'))
    for n in range(4, 13):
        for ks in (MIXED[:n], MIXED[::-1][:n], ['fixed'] * n, ['int'] * n):
            for how in HOW:
                yield Case('%s of %s' % (how, ks), build(
                    ks, one, how, 'plain'))
            yield Case('nested %s' % ks, build(ks, one, 'constructor',
                                               'nested'))
            inner = [k for k in ks if k not in ('ellipsis', 'int',
                                                'wrapped typevar')]
            yield Case('product %s' % ks, product_case(ks, 'composite', []))
            yield Case('var * (%s)' % inner, product_case(
                ['var'], 'composite', inner))
            yield Case('int * var * (%s)' % inner, product_case(
                ['int', 'var'], 'composite', inner))
        for p in range(n):
            for w in ('unit', 'composite', 'option', 'record', 'wrapped',
                      'shaped', 'nothing', 'number', 'negative', 'function'):
                yield Case('%s at %d of %d' % (w, p, n),
                           measures_at(n, p, w))
        for d in DIMS:
            if 'typevar' not in d:
                yield Case('%s last after %d' % (d, n), dim_last(d, n))
    for r in RIGHT:
        for n in (0, 1, 2, 5):
            if r == 'composite' or not n:
                yield Case('negative integer * %s under %d' % (r, n),
                           negative_product(r, n))
    for k in DIMS:
        if k != 'int':
            yield Case('%s * negative integer' % k, dim_times_negative(k))


def kind_lists(n, kinds):
    for k in range(n + 1):
        for p in product(kinds, repeat=k):
            if sum('ellipsis' in x for x in p) < 2:
                yield list(p)


def cases(L, tier):
    one = Shape('skolem', [], lambda L: sk(L, 'M'))
    for ks in kind_lists(3, list(DIMS)):
        for how in HOW:
            yield Case('%s of %s' % (how, ks), build(ks, one, how, 'plain'))
        if len(ks) > 1:
            yield Case('nested %s' % ks, build(ks, one, 'constructor',
                                               'nested'))
    for s in measures():
        for ks in kind_lists(1, list(DIMS)):
            for form in ('plain', 'wrapped'):
                yield Case('%s %s under %s' % (form, s.name, ks), build(
                    ks, s, 'constructor', form))
        for n in (1, 2, 3):
            for p in range(n):
                if s.name == 'TypeVar':
                    continue
                for form in ('plain', 'wrapped', 'shaped'):
                    yield Case('%s %s at %d of %d' % (form, s.name, p, n),
                               measure_first(s, n, p, form))
        for k in DIMS:
            if not (k == 'int' and s.name == 'TypeVar' and False):
                yield Case('%s * %s' % (k, s.name), shape_right(s, k))
        yield Case('text * %s' % s.name, text_left_shape(s))
        for w in UNWRAP:
            yield Case('%s unwrapped in %s' % (s.name, w), unwrapped(s, w))
        if s.name not in ('TypeVar',):
            yield Case('dshape of %s' % s.name, dshape_of(s))
    for d in DIMS:
        if 'typevar' in d:
            continue
        for n in (0, 1, 2):
            yield Case('%s last after %d' % (d, n), dim_last(d, n))
    for n in (1, 2, 3):
        for p in range(n + 1):
            yield Case('no type at %d of %d' % (p, n), not_type(n, p))
            if p < n:
                yield Case('negative at %d of %d' % (p, n), negative(n, p))
    for c in long_cases():
        yield c
    yield Case('no parameter', empty)
    yield Case('Fixed of something else', fixed_of)
    yield Case('Fixed', fixed_keeps)
    yield Case('dshape of something else', dshape_bad)
    for ks in kind_lists(3, ['fixed', 'int', 'var', 'typevar', 'ellipsis']):
        for r in RIGHT:
            if ks:
                yield Case('%s * %s' % (' * '.join(ks), r),
                           product_case(ks, r, []))
                for inner in (['fixed'], ['var', 'fixed'],
                              ['typevar', 'var']):
                    if r == 'composite':
                        yield Case('%s * (%s * m)' % (
                            ' * '.join(ks), ' * '.join(inner)),
                            product_case(ks, r, inner))
    for k in DIMS:
        if k == 'int':
            continue
        for t in TEXTS:
            yield Case('%s * %r' % (k, t), text_right(k, t))
    for r in RIGHT:
        yield Case('text * %s' % r, text_left(r))
    for a in ('measure', 'unit', 'option', 'shaped', 'wrapped'):
        for b in ('unit', 'option', 'shaped', 'fixed', 'var'):
            yield Case('%s * %s' % (a, b), wrong_product(a, b))
