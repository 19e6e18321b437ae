"""C10: conversion to and from NumPy types."""
import numpy as np
from ..explore import Case, Violation, Undecided
from ..values import *
from .common import *

EXPLAIN = (
    'Abstract interpretation of to_numpy, to_numpy_dtype and from_numpy on '
    'every list of up to three dimensions of every kind (unknown lengths) '
    'over every class of measure (unknown string lengths, unknown field '
    'names, nested records and tuples, skolem types for what NumPy cannot '
    'hold), and on every NumPy scalar type, strings of unknown size, records '
    'of unknown field names and sub-array fields of unknown shape; the '
    'result is compared component by component with the table of kinds in '
    'this file.')
FLOOR = {'quick': 150, 'thorough': 150}

# datashape constant -> NumPy type
PLAIN = {'bool_': 'bool', 'object_': 'object', 'date_': 'datetime64[D]',
         'datetime_': 'datetime64[us]'}
for _n in (8, 16, 32, 64):
    PLAIN['int%d' % _n] = 'int%d' % _n
    PLAIN['uint%d' % _n] = 'uint%d' % _n
for _n in (16, 32, 64):
    PLAIN['float%d' % _n] = 'float%d' % _n
PLAIN['complex64'] = 'complex64'
PLAIN['complex128'] = 'complex128'


class Want(object):
    """An expected NumPy type."""
    def __init__(self, kind, a=None, b=None):
        self.kind, self.a, self.b = kind, a, b

    def __repr__(self):
        return '%s %r' % (self.kind, self.a)


def gaps(L, got, fields):
    """Is the type longer than its fields?"""
    if isinstance(got, np.dtype):
        pos = 0
        for n in got.names:
            if got.fields[n][1] != pos:
                return True
            pos += got.fields[n][0].itemsize
        return got.itemsize != pos
    if not got.attrs.get('isalignedstruct'):
        return False
    ds = [L.i.res(d) for _, d in fields]
    if not all(isinstance(d, np.dtype) for d in ds):
        raise Undecided('the layout is not known')
    fs = [('f%d' % k, d) for k, d in enumerate(ds)]
    return np.dtype(fs) != np.dtype(fs, align=True) or \
        np.dtype(fs).itemsize != np.dtype(fs, align=True).itemsize


def same_dtype(L, got, want, what):
    got = L.i.res(got)
    if isinstance(got, Sym) and got.pytype is None:
        raise Undecided('the type is not known')
    if want.kind == 'const':
        if isinstance(got, Sym):
            raise Violation('%s gives %s, not %s' % (what, L.show(got),
                                                     want.a))
        L.check(got == np.dtype(want.a), '%s gives %s, not %s' % (
            what, got, want.a))
        if want.b and isinstance(want.a, str):
            L.check(got.isnative, '%s gives %s' % (what, got))
    elif want.kind in 'SU':
        if isinstance(got, np.dtype):
            L.check(got.kind == want.kind, '%s gives %s' % (what, got))
            n = got.itemsize // (4 if got.kind == 'U' else 1)
        else:
            L.check(isinstance(got, Sym) and got.pytype is np.dtype and
                    got.attrs.get('kind') == want.kind,
                    '%s gives %s' % (what, L.show(got)))
            n = got.attrs['count']
        L.check(L.eq(n, want.a), '%s gives %s of %s, not %s' % (
            what, want.kind, L.show(n), L.show(want.a)))
    else:
        if isinstance(got, np.dtype):
            L.check(got.names is not None, '%s gives %s' % (what, got))
            fields = [(n, got.fields[n][0]) for n in got.names]
        else:
            L.check(isinstance(got, Sym) and 'struct' in got.attrs,
                    '%s gives %s' % (what, L.show(got)))
            fields = got.attrs['struct']
        if gaps(L, got, fields):
            raise Violation('%s gives %s, which has gaps between the fields' %
                            (what, L.show(got)))
        L.check(len(fields) == len(want.a), '%s gives %d fields, not %d' % (
            what, len(fields), len(want.a)))
        for k, ((n, d), (wn, wd)) in enumerate(zip(fields, want.a)):
            L.check(L.eq(n, wn), '%s names field %d %s, not %s' % (
                what, k, L.show(n), L.show(wn)))
            same_dtype(L, d, wd, 'field %d of %s' % (k, what))


# measures that NumPy holds: builder of (measure, Want)

def plain(t):
    def mk(L):
        x = L.api(t)
        if t == 'date_':
            x = L.new('Date')
        elif t == 'datetime_':
            x = L.new('DateTime', L.pick('tz', [None, 'UTC']))
        return x, Want('const', PLAIN[t])
    return mk


def timedelta(L):
    u = L.pick('unit', UNITS)
    return L.new('TimeDelta', u), Want('const', 'timedelta64[%s]' % u)


def string(L):
    n = L.int('length', 1)
    e = L.pick('encoding', ENCODINGS)
    return L.new('String', n, e), Want('S' if e == 'A' else 'U', n)


def string_n(L):
    n = L.pick('length', [1, 7, 100])
    e = L.pick('encoding', ENCODINGS)
    return L.new('String', n, e), Want('S' if e == 'A' else 'U', n)


LEAVES = {t: plain(t) for t in PLAIN}
LEAVES['timedelta'] = timedelta
LEAVES['string'] = string
LEAVES['sized string'] = string_n


def record(*leaves):
    def mk(L):
        fs, ws = [], []
        for k, l in enumerate(leaves):
            n = name_slot(k).make(L)
            t, w = l(L)
            fs.append((n, t))
            ws.append((n, w))
        return L.new('Record', L.list(fs)), Want('struct', ws)
    return mk


def tuple_(*leaves):
    def mk(L):
        fs, ws = [], []
        for k, l in enumerate(leaves):
            t, w = l(L)
            fs.append(t)
            ws.append(('f%d' % k, w))
        return L.new('Tuple', L.list(fs)), Want('struct', ws)
    return mk


def dims_case(kinds, leaf, entry):
    """kinds: F fixed, T type variable, V var, E ellipsis."""
    def f(L):
        m, w = leaf(L)
        ds, shape, bad = [], [], False
        for k, c in enumerate(kinds):
            if c == 'F':
                n = L.int('d%d' % k, 0)
                ds.append(L.new('Fixed', n))
                shape.append(n)
            elif c == 'T':
                ds.append(L.new('TypeVar', L.text('T%d' % k, UPPER)))
                shape.append(-1)
            else:
                bad = True
                ds.append(L.new('Var') if c == 'V' else L.new('Ellipsis'))
        x = L.new('DataShape', *ds + [m]) if ds or entry == 'wrapped' else m
        what = 'to_numpy of %s' % L.show(x)
        kind, v = L.outcome('to_numpy', x)
        if bad:
            L.check(kind == 'raise', '%s is accepted' % what)
            L.check(L.exc_is(v, TypeError), '%s raises %s' % (
                what, L.exc_text(v)))
            return
        if kind == 'raise':
            raise Violation('%s raises %s' % (what, L.exc_text(v)))
        got = L.items(v)
        L.check(len(got) == 2, '%s gives %s' % (what, L.show(v)))
        L.check(L.i.type_of(got[0]) is tuple, '%s gives the shape %s' % (
            what, L.show(got[0])))
        dims = L.items(got[0])
        L.check(len(dims) == len(shape), '%s gives the shape %s' % (
            what, L.show(got[0])))
        for a, b in zip(dims, shape):
            L.check(L.i.type_of(a) is int and L.eq(a, b),
                    '%s gives the shape %s' % (what, L.show(got[0])))
        same_dtype(L, got[1], w, what)
        d = L.call(L.api('to_numpy_dtype'), x)
        same_dtype(L, d, w, 'to_numpy_dtype of %s' % L.show(x))
    return f


def refused(shape, opt, ndim):
    """A measure that NumPy cannot hold."""
    def f(L):
        _, m = shape.make(L)
        if opt:
            m = L.new('Option', m)
        x = L.new('DataShape', *[L.new('Fixed', L.int('d%d' % k, 0))
                                 for k in range(ndim)] + [m]) if ndim else m
        kind, v = L.outcome('to_numpy', x)
        L.check(kind == 'raise', 'to_numpy of %s is %s' % (
            L.show(x), L.show(v)))
        L.check(L.exc_is(v, TypeError), 'to_numpy of %s raises %s' % (
            L.show(x), L.exc_text(v)))
    return f


def refused_inside(shape, outer):
    def f(L):
        _, m = shape.make(L)
        x = L.new('Record', L.list([('a', L.api('int32')), ('b', m)])) \
            if outer == 'record' else \
            L.new('Tuple', L.list([L.api('int32'), m]))
        kind, v = L.outcome('to_numpy', x)
        L.check(kind == 'raise', 'to_numpy of %s is %s' % (
            L.show(x), L.show(v)))
        L.check(L.exc_is(v, TypeError), 'to_numpy of %s raises %s' % (
            L.show(x), L.exc_text(v)))
    return f


def shaped_field(L):
    x = L.new('Record', L.list([('a', L.new('DataShape', L.new(
        'Fixed', L.int('n', 2)), L.api('int32')))]))
    v = L.items(L.call('to_numpy', x))[1]
    v = L.i.res(v)
    d = v.fields['a'][0] if isinstance(v, np.dtype) else \
        L.i.res(v.attrs['struct'][0][1])
    if isinstance(d, np.dtype) and d.shape == ():
        raise Violation('to_numpy of %s drops the dimension of the field' %
                        L.show(x), 'record-field-dimensions')


# ------------------------------------------------------------ from NumPy

def from_plain(t):
    def mk(L):
        return np.dtype(PLAIN[t]), ('const', t)
    return mk


def from_unit(kind, u, n=1):
    def mk(L):
        d = np.dtype('%s8[%s%s]' % (kind, '' if n == 1 else n, u))
        if kind == 'm':
            return d, ('timedelta', u)
        return d, ('const', 'date_' if u in 'YMWD' else 'datetime_')
    return mk


def from_string(kind):
    def mk(L):
        n = L.int('size', 1)
        d = L.i.np_dtype([L.i.text([kind, Hole(n, 'd')])], {})
        return d, ('string', n, 'A' if kind == 'S' else 'U32')
    return mk


def from_struct(*leaves):
    def mk(L):
        i = L.i
        names, fields, want = [], [], []
        for k, l in enumerate(leaves):
            n = name_slot(k).make(L)
            d, w = l(L)
            names.append(n)
            fields.append((n, d))
            want.append((n, w))
        t = i.dtype_sym('struct', np.dtype([('f', 'i1')]))
        # in any order in memory, with any gaps
        t.attrs.update(names=tuple(names), itemsize=L.int('itemsize', 0),
                       struct=tuple(fields))
        t.attrs['fields'] = i.dict([(n, (d, L.int('offset%d' % k, 0)))
                                    for k, (n, d) in enumerate(fields)])
        return t, ('record', want)
    return mk


def from_subarray(leaf, ndim):
    def mk(L):
        d, w = leaf(L)
        shape = tuple(L.int('s%d' % k, 1) for k in range(ndim))
        t = L.i.dtype_sym('subarray', np.dtype(('i1', (2,))))
        t.attrs.update(shape=shape, base=d, subdtype=(d, shape),
                       itemsize=L.i.top('itemsize'))
        return t, ('shaped', shape, w)
    return mk


PY_NAMES = {str(np.dtype(v)): k for k, v in PLAIN.items()}


def meaning(d):
    """What a constant NumPy type means."""
    if d.names is not None:
        return 'record', [(n, meaning(d.fields[n][0])) for n in d.names]
    if d.shape:
        return 'shaped', d.shape, meaning(d.base)
    if d.kind == 'S':
        return 'string', d.itemsize, 'A'
    if d.kind == 'U':
        return 'string', d.itemsize // 4, 'U32'
    if d.kind in 'Mm':
        u = np.datetime_data(d)[0]
        if d.kind == 'm':
            return 'timedelta', u
        return 'const', 'date_' if u in 'YMWD' else 'datetime_'
    return 'const', PY_NAMES[d.name]


def from_constant(d, shape=()):
    def f(L):
        got = L.call('from_numpy', shape, d)
        w = meaning(np.dtype(d))
        want = expected(L, ('shaped', shape, w) if shape else w)
        L.check(L.eq(got, want) and L.eq(want, got),
                'from_numpy(%s, %r) is %s, not %s' % (
                    shape, d, L.show(got), L.show(want)))
    return f


def constants():
    nested = np.dtype([('y', 'i2'), ('x', [('q', 'f4'), ('p', 'S3', (2,))])])
    for d in ['i4', '>i4', '<f8', '>f8', '>c16', '>U5', '>M8[s]', '>m8[ms]',
              '>u2', '?', 'O', 'S1', 'U1', 'M8[25us]', 'm8[7D]', 'M8[D]',
              'int32', 'float64', 'bool', int, float, bool, complex, object,
              np.int8, np.float32, np.datetime64]:
        if d is not np.datetime64:
            yield d
    kinds = ['i1', '>i2', 'f8', 'S7', 'U3', 'M8[D]', '?', 'c8', 'm8[h]',
             nested, ('u4', (3, 1)), 'O']
    orders = [list(range(n)) for n in (1, 2, 3, 5, 7, 12)]
    orders += [o[::-1] for o in orders[1:]] + [
        [1, 0, 2], [2, 0, 1], [0, 2, 1], [1, 2, 0], [3, 0, 4, 1, 2]]
    names = ['b', 'a', 'C', '10', '9', '', 'B b', 'f0', '\u00e9', 'z',
             'int32', '_']
    for o in orders:
        n = len(o)
        for ks in (kinds, kinds[3:] + kinds[:3]):
            if 'O' in ks[:n] and o != sorted(o):
                continue
            fs = [np.dtype(k) for k in ks[:n]]
            offs = {}
            pos = 0
            for k in sorted(range(n), key=lambda k: o[k]):
                offs[k] = pos
                pos += fs[k].itemsize + (5 if k % 2 else 0)
            if any(f.hasobject for f in fs):
                yield np.dtype(list(zip(names_of(names, n), fs)))
                continue
            yield np.dtype({'names': names_of(names, n), 'formats': fs,
                            'offsets': [offs[k] for k in range(n)],
                            'itemsize': pos + 3})
    yield np.dtype([('a', 'i1'), ('b', 'f8')], align=True)
    # overlapping
    yield np.dtype({'names': ['all', 'low', 'high'],
                    'formats': ['u4', 'u2', 'u2'], 'offsets': [0, 0, 2]})
    yield np.dtype({'names': ['high', 'low', 'all'],
                    'formats': ['u2', 'u2', 'u4'], 'offsets': [2, 0, 0]})


def names_of(names, n):
    return [x or 'empty' for x in names[:n]]


def expected(L, w):
    if w[0] == 'const':
        return L.api(w[1])
    if w[0] == 'timedelta':
        return L.new('TimeDelta', w[1])
    if w[0] == 'string':
        return L.new('String', w[1], w[2])
    if w[0] == 'shaped':
        return L.new('DataShape', *[L.new('Fixed', n) for n in w[1]] +
                     [expected(L, w[2])])
    return L.new('Record', L.list([(n, expected(L, t)) for n, t in w[1]]))


def from_case(leaf, ndim, how):
    def f(L):
        d, w = leaf(L)
        shape = tuple(L.int('d%d' % k, 0) for k in range(ndim))
        got = L.call('from_numpy', L.list(shape) if how == 'list' else shape,
                     d)
        want = expected(L, w)
        if ndim:
            want = L.new('DataShape', *[L.new('Fixed', n) for n in shape] +
                         [want])
        L.check(L.eq(got, want) and L.eq(want, got),
                'from_numpy(%s, %s) is %s, not %s' % (
                    L.show(shape), L.show(d), L.show(got), L.show(want)))
        L.check(L.isinst(got, 'DataShape') == bool(ndim),
                'from_numpy(%s, %s) is %s' % (L.show(shape), L.show(d),
                                              L.show(got)))
    return f


def cases(L, tier):
    sk_leaf = LEAVES['int32']
    combos = ['', 'F', 'T', 'V', 'E']
    for a in 'FTVE':
        for b in 'FTVE':
            if a + b != 'EE':
                combos.append(a + b)
                for c in 'FTVE':
                    if (a + b + c).count('E') < 2:
                        combos.append(a + b + c)
    for k in combos:
        yield Case('dimensions %s' % k, dims_case(k, sk_leaf, 'plain'))
    for n, leaf in LEAVES.items():
        for k in ('', 'F', 'T', 'FF', 'V'):
            yield Case('%s with %r' % (n, k), dims_case(k, leaf, 'plain'))
        yield Case('%s wrapped' % n, dims_case('', leaf, 'wrapped'))
        for m, outer in (('record', record), ('tuple', tuple_)):
            yield Case('%s of %s' % (m, n), dims_case('', outer(leaf),
                                                      'plain'))
            yield Case('%s of int8 and %s' % (m, n), dims_case(
                'F', outer(LEAVES['int8'], leaf), 'plain'))
            yield Case('%s of %s and int8' % (m, n), dims_case(
                '', outer(leaf, LEAVES['int8']), 'wrapped'))
            for m2, outer2 in (('record', record), ('tuple', tuple_)):
                yield Case('%s of %s of %s' % (m, m2, n), dims_case(
                    '', outer(LEAVES['int8'], outer2(leaf, LEAVES['int16'])),
                    'plain'))
    yield Case('record of three', dims_case('F', record(
        LEAVES['float64'], string, timedelta), 'plain'))
    yield Case('tuple of three', dims_case('F', tuple_(
        LEAVES['float64'], string, timedelta), 'plain'))
    yield Case('field with dimensions', shaped_field)
    one = Shape('skolem', [sk_slot('M')], lambda L, x: x)
    unit = Shape('skolem unit', [], lambda L: sk(L, 'U', unit=True))
    no = [one, unit] + [s for s in measures() if s.name in (
        'Null', 'Time', 'Units', 'JSON', 'Bytes', 'TypeVar', 'Function1',
        'Function2', 'Categorical', 'Categorical2', 'CategoricalInt')]
    for s in no:
        for n in (0, 1, 2):
            yield Case('refused %s %d' % (s.name, n), refused(s, 0, n))
        yield Case('refused option %s' % s.name, refused(s, 1, 0))
        for o in ('record', 'tuple'):
            yield Case('refused %s in %s' % (s.name, o),
                       refused_inside(s, o))
    opt = [s for s in measures() if s.name in PLAIN and s.name[0] in 'biu']
    for s in opt:
        yield Case('refused option %s' % s.name, refused(s, 1, 0))
        yield Case('refused option %s 1' % s.name, refused(s, 1, 1))
    for n in (4, 5, 6, 7, 9):
        ls = [LEAVES[t] for t in ('float32', 'int8', 'bool_', 'int64',
                                  'uint16', 'complex64', 'date_', 'object_',
                                  'float64')][:n]
        yield Case('record of %d' % n, dims_case('F', record(*ls), 'plain'),
                   relaxed=True)
        yield Case('tuple of %d' % n, dims_case('', tuple_(*ls), 'wrapped'),
                   relaxed=True)
    for k in ('FFFF', 'TFTF', 'FTFFT', 'FFFTFF', 'TTTTTTT', 'FFFFFFFF',
              'FFFFV', 'FFFFFE', 'VFFFF', 'FFVFF'):
        yield Case('dimensions %s' % k, dims_case(k, sk_leaf, 'plain'))
    # and back
    for k, d in enumerate(constants()):
        yield Case('constant %d %r' % (k, d), from_constant(d))
        yield Case('constant %d %r with shape' % (k, d), from_constant(
            d, (3, 0, 7, 1, 5)))
    leaves = {t: from_plain(t) for t in PLAIN}
    for u in UNITS:
        leaves['M8[%s]' % u] = from_unit('M', u)
        leaves['m8[%s]' % u] = from_unit('m', u)
    leaves['S'] = from_string('S')
    leaves['U'] = from_string('U')
    for n, leaf in leaves.items():
        for d in (0, 1, 2, 3):
            for how in ('tuple', 'list'):
                yield Case('from %s, %d, %s' % (n, d, how),
                           from_case(leaf, d, how))
        i8 = leaves['int8']
        for d in (0, 1):
            yield Case('from struct of %s, %d' % (n, d),
                       from_case(from_struct(leaf), d, 'tuple'))
            yield Case('from struct of int8, %s, %d' % (n, d),
                       from_case(from_struct(i8, leaf), d, 'tuple'))
            yield Case('from struct of %s, int8, %d' % (n, d),
                       from_case(from_struct(leaf, i8), d, 'tuple'))
        for k in (1, 2, 3):
            yield Case('from sub-array of %s, %d' % (n, k), from_case(
                from_struct(i8, from_subarray(leaf, k)), 0, 'tuple'))
        yield Case('from nested struct of %s' % n, from_case(
            from_struct(i8, from_struct(leaf, i8)), 1, 'tuple'))
        yield Case('from sub-array of struct of %s' % n, from_case(
            from_struct(from_subarray(from_struct(leaf, i8), 2)), 1,
            'tuple'))
