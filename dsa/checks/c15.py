"""C15: discovery of containers."""
from itertools import product
import numpy as np
from ..explore import Case, Violation
from ..values import *
from .common import *
from . import disc
from .c10 import expected, meaning
from .c13 import counted

EXPLAIN = (
    'Abstract interpretation of discover on lists, tuples and mappings with '
    'unknown scalars of every kind: every list of one to three scalars '
    '(thorough: four), every two-by-two table of five kinds, ragged and '
    'three-deep nestings, rows, mappings in every container, mappings '
    'sharing all, some or no keys with values missing at every place.  The '
    'datashape must describe the value (a reference relation: length or one '
    'entry per element at every level, every key, missing values optional, '
    'types no less general than those of the values), and for uniform data, '
    'mappings and lists of mappings must be exactly the expected one.')
FLOOR = {'quick': 1500, 'thorough': 4000}
LOAD_ORDERS = ('ins', 'rev')


def describe(v, want=None):
    def f(L):
        ds = L.call('discover', disc.make(L, v))
        what = 'discover(%s)' % disc.name(v)
        L.check(L.isinst(ds, 'Mono'), '%s is %s' % (what, L.show(ds)))
        why = disc.describes(L, ds, v)
        L.check(not why, '%s: %s' % (what, why))
        if isinstance(v, list) or (isinstance(v, tuple) and
                                   v[0] == 'tuple'):
            xs = v if isinstance(v, list) else v[1]
            m, _ = disc.strip(L, ds)
            if L.isinst(m, 'DataShape'):
                first = L.items(L.attr(m, 'parameters'))[0]
                L.check(L.isinst(first, 'Fixed') and
                        L.eq(L.attr(first, 'val'), len(xs)),
                        '%s has %s elements' % (what, L.show(first)))
        if want is not None:
            w = want(L)
            L.check(L.eq(ds, w), '%s is %s, not %s' % (what, L.show(ds),
                                                      L.show(w)))
    return f


def fixed(L, dims, m):
    return L.new('DataShape', *[L.new('Fixed', n) for n in dims] + [m])


def uniform(dims, scalar):
    t = disc.SCALAR[scalar][1]
    v = scalar
    for n in reversed(dims):
        v = [v] * n
    return v, lambda L: fixed(L, dims, disc.ty(L, t))


def scalars(vs):
    """Expected type of a list of scalars, or None."""
    ts = [disc.SCALAR[v][1] for v in vs]
    if len(set(ts)) > 1:
        return None
    good = [t for t in ts if t != 'null']
    if not good:
        return lambda L: fixed(L, [len(vs)], L.new('Null'))
    u = disc.lub(good)
    if u is None or (len(good) < len(ts) and
                     not set(good) <= set(disc.KNOWN)):
        return None

    def want(L):
        m = disc.ty(L, u)
        if len(good) < len(ts):
            m = L.new('Option', m)
        return fixed(L, [len(vs)], m)
    return want


def record_of(pairs, order):
    """Expected record of a mapping with scalar values."""
    def want(L):
        d = dict(pairs)
        return L.new('Record', L.list([
            (n, disc.ty(L, disc.SCALAR[d[n]][1])) for n in order]))
    return want


def rows_of_dicts(rows):
    """Expected type of a list of mappings with scalar values: the fields in
    the order of the result are checked by name."""
    keys = []
    for r in rows:
        for k, v in r:
            if k not in keys:
                keys.append(k)
    cols = {}
    for k in keys:
        vs = [dict(r).get(k, 'none') for r in rows]
        ts = [disc.SCALAR[v][1] for v in vs]
        good = [t for t in ts if t != 'null']
        cols[k] = (None if not good else disc.lub(good), len(good) < len(ts),
                   bool(good))
    return keys, cols


def dict_rows(rows, kind, seq):
    def f(L):
        v = [(kind, r) for r in rows]
        if seq == 'tuple':
            v = ('tuple', v)
        ds = L.call('discover', disc.make(L, v))
        what = 'discover(%s)' % disc.name(v)
        why = disc.describes(L, ds, v)
        L.check(not why, '%s: %s' % (what, why))
        keys, cols = rows_of_dicts(rows)
        if any(u is None and some for u, miss, some in cols.values()):
            return      # no common type: other rules apply
        rest = counted(L, ds, len(rows), what)
        m, opt = disc.strip(L, rest)
        L.check(L.isinst(m, 'Record') and not opt, '%s is %s' % (
            what, L.show(ds)))
        names = [L.i.res(n) for n in L.items(L.attr(m, 'names'))]
        L.check(sorted(names) == sorted(keys), '%s has the fields %s' % (
            what, names))
        for n, t in zip(names, L.items(L.attr(m, 'types'))):
            u, miss, some = cols[n]
            if not some:
                w = L.new('Null')
            else:
                w = disc.ty(L, u)
                if miss:
                    w = L.new('Option', w)
            L.check(L.eq(t, w), '%s: field %s is %s' % (what, n, L.show(t)))
    return f


def other_sequences(kind, n, scalar):
    """Sets and the like: the length only."""
    def f(L):
        xs = [disc.SCALAR[scalar][0](L, 'v%d' % k) for k in range(n)]
        if scalar == 'int':
            xs = list(range(n))
        import collections
        v = L.i.set(xs, frozen=kind == 'frozenset')
        ds = L.call('discover', v)
        L.check(L.eq(ds, fixed(L, [n], disc.ty(L, disc.SCALAR[scalar][1]))),
                'discover of a %s is %s' % (kind, L.show(ds)))
    return f


def texts(x):
    return all(isinstance(v, str) for v in x.flat[:5].tolist())


def array(x):
    """An array has its shape and the type of its elements, where objects
    that begin with texts are strings."""
    def f(L):
        w = meaning(x.dtype)
        if w == ('const', 'object_') and texts(x):
            w = ('const', 'string')
        elif w[0] == 'record':
            w = ('record', [(n, ('const', 'string') if t == (
                'const', 'object_') and texts(x[n]) else t)
                for n, t in w[1]])
        want = expected(L, ('shaped', x.shape, w) if x.shape else w)
        ds = L.call('discover', x)
        L.check(L.eq(ds, want) and L.eq(want, ds),
                'discover of an array of %s of shape %s is %s, not %s' % (
                    x.dtype, x.shape, L.show(ds), L.show(want)))
        if x.ndim:
            L.check(L.isinst(ds, 'DataShape'), 'discover of an array is %s' %
                    L.show(ds))
    return f


SHAPES = [(0,), (1,), (3,), (7,), (2, 3), (3, 2), (0, 4), (4, 0), (1, 2, 3),
          (2, 1, 2, 3), ()]


def filled(shape, values):
    x = np.empty(shape, 'O')
    n = x.size
    for k in range(n):
        x.flat[k] = values[k % len(values)]
    return x


def arrays():
    kinds = ['?', 'i1', 'u2', '>i4', 'i8', 'f2', 'f8', 'c8', 'c16', 'S5',
             'U4', 'M8[D]', 'M8[ns]', 'm8[s]',
             [('b', 'i4'), ('a', 'f8')], [('x', 'S2', (3,)), ('w', [
                 ('z', 'i1'), ('y', 'U2')])]]
    for k in kinds:
        for s in SHAPES:
            yield '%s %s' % (k, s), np.zeros(s, k)
    for vs in (['a'], ['a', 'bb', ''], ['a', None], [None, 'a'], [1, 2],
               ['a', 'b', 'c', 'd', 1], ['a', 'b', 1, 'd'], [b'a'], [1, 'a'],
               [['a'], 'b'], [3.5], [None]):
        for s in SHAPES:
            yield 'objects %s %s' % (vs, s), filled(s, vs)
    for s in SHAPES:
        for names in (['t', 'o', 'n'], ['z', 'y', 'x']):
            x = np.zeros(s, [(names[0], 'O'), (names[1], 'i4'),
                             (names[2], 'O'), ('q', 'O', (2,))])
            y = np.zeros(s, [(names[0], 'O'), (names[1], 'O'),
                             (names[2], 'i4'), ('in', [('p', 'O')])])
            for a, b in ((['a', 'b'], [1, 'c']), ([None, 'a'], ['x']),
                         (['a'], ['b'])):
                x, y = x.copy(), y.copy()
                x[names[0]] = filled(s, a)
                x[names[2]] = filled(s, b)
                y[names[0]] = filled(s, b)
                y[names[1]] = filled(s, a)
                yield 'records %s %s %s %s' % (names, a, b, s), x
                yield 'more records %s %s %s %s' % (names, a, b, s), y
    yield 'transposed', np.zeros((2, 3, 4), 'i2').transpose()
    yield 'transposed objects', filled((2, 3), ['a']).T
    yield 'every other', np.zeros((9, 8), 'f4')[::2, 1::3]


def cases(L, tier):
    for n, x in arrays():
        yield Case('array of %s' % n, array(x))
    deep = tier == 'thorough'
    S = ['int', 'float', 'true', 'none', 'date', 'datetime', 'text', 'delta']
    for n in (1, 2, 3, 4) if deep else (1, 2, 3):
        for vs in product(S if n < 4 else S[:4] + ['text'], repeat=n):
            yield Case('list %s' % ','.join(vs),
                       describe(list(vs), scalars(vs)))
            if n < 3:
                yield Case('tuple %s' % ','.join(vs),
                           describe(('tuple', list(vs)), scalars(vs)))
    odd = ['bytes', 'time', 'complex', 'int', 'none']
    for n in (1, 2, 3):
        for vs in product(odd, repeat=n):
            yield Case('list %s' % ','.join(vs),
                       describe(list(vs), scalars(vs) if len(set(vs)) == 1
                                else None))
    for dims in ((1,), (5,), (2, 3), (3, 1), (2, 2, 2), (1, 2, 3),
                 (2, 1, 2, 2)):
        for s in ('int', 'float', 'true', 'date', 'datetime', 'text',
                  'bytes', 'complex', 'time', 'delta', 'none'):
            if s == 'none' and len(dims) > 1:
                yield Case('uniform %s of %s' % (dims, s),
                           describe(uniform(dims, s)[0]))
                continue
            v, w = uniform(dims, s)
            yield Case('uniform %s of %s' % (dims, s), describe(v, w))
    T = ['int', 'float', 'none', 'text', 'date']
    for a, b, c, d in product(T, repeat=4):
        yield Case('table %s %s / %s %s' % (a, b, c, d),
                   describe([[a, b], [c, d]]))
        if deep or a == 'int':
            yield Case('rows %s %s / %s %s' % (a, b, c, d),
                       describe([('tuple', [a, b]), ('tuple', [c, d])]))
            yield Case('ragged %s %s / %s' % (a, b, c),
                       describe([[a, b], [c]]))
            yield Case('ragged %s / %s %s %s' % (a, b, c, d),
                       describe([[a], [b, c, d]]))
            yield Case('mixed %s / %s %s' % (a, b, c),
                       describe([a, [b, c]]))
            yield Case('deep %s %s %s %s' % (a, b, c, d),
                       describe([[[a, b], [c, d]], [[a, d], [b, c]]]))
            yield Case('deep ragged %s %s %s %s' % (a, b, c, d),
                       describe([[[a, b], [c]], [[d]]]))
            yield Case('three rows %s %s / %s %s' % (a, b, c, d),
                       describe([[a, b], [c, d], [a, d]]))
            yield Case('wide %s %s %s / %s' % (a, b, c, d),
                       describe([[a, b, c], [d, d, d]]))
    for v in ([[], ['int']], [['int'], []], [[], []], [[[]], [['int']]],
              [[], ['int', 'int'], ['int']], ['int', []],
              [('tuple', []), ('tuple', [])]):
        yield Case('empty inside %s' % disc.name(v), describe(v))
    # ragged but uniform: a variable dimension
    for s in ('int', 'text', 'date'):
        yield Case('ragged uniform ' + s, describe(
            [[s], [s, s]], lambda L, s=s: L.new(
                'DataShape', L.new('Fixed', 2), L.new('Var'),
                disc.ty(L, disc.SCALAR[s][1]))))
    # mappings
    for n in range(4):
        for vs in product(['int', 'text', 'none', 'date'], repeat=n):
            pairs = list(zip('bca', vs))
            yield Case('mapping %s' % ','.join(vs),
                       describe(('dict', pairs),
                                record_of(pairs, sorted(dict(pairs)))))
            yield Case('ordered mapping %s' % ','.join(vs),
                       describe(('ordered', pairs),
                                record_of(pairs, [k for k, _ in pairs])))
    nested = [('dict', [('b', ['int', 'int']), ('a', ('dict', [('x', 'text'),
                                                              ('w', 'int')]
                                                     ))]),
              ('ordered', [('b', ['int', 'none']), ('a', 'none')]),
              ('dict', [('a', [('dict', [('x', 'int')]),
                               ('dict', [('x', 'none'), ('y', 'text')])])]),
              [['int', ('dict', [('a', 'int')])],
               ['float', ('dict', [('a', 'float')])]],
              ['int', ('dict', [('a', 'int')])],
              [('dict', [('a', 'int')]), 'none'],
              ['none', ('dict', [('a', 'int')]), ('dict', [('a', 'float')])],
              [('dict', [('a', ['int'])]), ('dict', [('a', ['int', 'int'])])],
              [('dict', [('a', ['int'])]), ('dict', [('b', ['int', 'int'])])],
              [('dict', [('a', ['int'])]), ('dict', [('a', 'int')])],
              [('dict', [('a', ['int'])]), ('dict', [('a', 'none')])],
              [('dict', [('a', ('dict', [('x', 'int')]))]),
               ('dict', [('a', ('dict', [('x', 'float')]))])],
              [('dict', [('a', ('dict', [('x', 'int')]))]),
               ('dict', [('a', ('dict', [('y', 'float')]))])],
              [('dict', [('a', ('dict', [('x', 'int')]))]),
               ('dict', [('a', 'none')])],
              [('ordered', [('b', 'int'), ('a', 'int')]),
               ('ordered', [('a', 'int'), ('b', 'int')])],
              [('tuple', ['int', ['int', 'int']]),
               ('tuple', ['int', ['int']])],
              [('tuple', ['int', ['int', 'int']]),
               ('tuple', ['text', ['int', 'int']])]]
    for v in nested:
        yield Case('nested %s' % disc.name(v), describe(v))
    V = ['int', 'float', 'none', 'text']
    for a, b in product(V + ['date', 'true'], repeat=2):
        for rows in ([[('x', a)], [('x', b)]],
                     [[('x', a)], [('y', b)]],
                     [[('x', a), ('y', 'int')], [('x', b)]],
                     [[('x', b)], [('y', 'int'), ('x', a)]],
                     [[('y', a), ('x', 'text')], [('x', b), ('z', 'int')]],
                     [[('x', a)], [], [('x', b)]],
                     [[('x', a)], [('x', b)], [('y', 'int')]]):
            for kind in ('dict', 'ordered'):
                for seq in ('list', 'tuple'):
                    yield Case('rows %s %s' % (seq, disc.name(
                        [(kind, r) for r in rows])),
                        dict_rows(rows, kind, seq))
    # which rows have which keys
    subsets = [[], ['x'], ['y'], ['x', 'y']]
    for n in (3, 4) if deep else (3,):
        for rows in product(subsets, repeat=n):
            rows = [[(k, 'int') for k in ks] for ks in rows]
            yield Case('keys %s' % ''.join('/' + ''.join(k for k, _ in r)
                                           for r in rows),
                       dict_rows(rows, 'dict', 'list'))
    # one that differs, wherever it is
    for n in (5, 7):
        for k in range(n):
            for odd in ('float', 'none', 'text'):
                vs = ['int'] * n
                vs[k] = odd
                yield Case('%s at %d of %d' % (odd, k, n),
                           describe(vs, scalars(vs)))
                cols = [['int', 'date'] for _ in range(n)]
                cols[k] = [odd, 'date']
                yield Case('%s in row %d of %d' % (odd, k, n),
                           describe(cols))
            v = [['int', 'int'] for _ in range(n)]
            v[k] = ['int']
            yield Case('short row %d of %d' % (k, n), describe(
                v, lambda L, n=n: L.new(
                    'DataShape', L.new('Fixed', n), L.new('Var'),
                    disc.ty(L, disc.SCALAR['int'][1]))))
            rows = [[('x', 'int')] for _ in range(n)]
            rows[k] = [('x', 'int'), ('y', 'int')]
            yield Case('key in row %d of %d' % (k, n),
                       dict_rows(rows, 'dict', 'list'))
            rows = [[('x', 'int'), ('y', 'int')] for _ in range(n)]
            rows[k] = [('x', 'int')]
            yield Case('no key in row %d of %d' % (k, n),
                       dict_rows(rows, 'dict', 'list'))
    # long rows, and many rows
    mix = ['int', 'text', 'true', 'date', 'bytes', 'time', 'complex', 'delta',
           'float', 'none']
    for n in (5, 6, 7, 9, 12):
        row = [mix[k * 3 % 10] for k in range(n)]
        for rows in (1, 2, 6):
            yield Case('%d rows of %d' % (rows, n), describe(
                [list(row) for _ in range(rows)]))
            yield Case('%d tuples of %d' % (rows, n), describe(
                [('tuple', list(row)) for _ in range(rows)]))
        yield Case('mixed list of %d' % n, describe(row))
        keys = ['k', 'B', 'a', 'C', 'b', '_', 'Z', 'c d', '10', '9', '',
                'A'][:n]
        pairs = list(zip(keys, row))
        yield Case('mapping of %d' % n, describe(
            ('dict', pairs), record_of(pairs, sorted(keys))))
        yield Case('ordered mapping of %d' % n, describe(
            ('ordered', pairs), record_of(pairs, keys)))
        for kind in ('dict', 'ordered'):
            yield Case('two %s of %d' % (kind, n), describe(
                [(kind, pairs), (kind, pairs[::-1])]))
    for n in (17, 33, 65):
        for k in (0, 1, n // 2, n - 2, n - 1):
            rows = [[('x', 'int')] for _ in range(n)]
            rows[k] = [('y', 'int')]
            yield Case('key in row %d of %d' % (k, n),
                       dict_rows(rows, 'dict', 'list'))
            for odd in ('float', 'none', 'text', 'date'):
                vs = ['int'] * n
                vs[k] = odd
                yield Case('%s at %d of %d' % (odd, k, n),
                           describe(vs, scalars(vs)))
            v = [['int', 'int'] for _ in range(n)]
            v[k] = ['int']
            yield Case('short row %d of %d' % (k, n), describe(v))
            v = [['int', 'date'] for _ in range(n)]
            v[k] = ['int', 'none']
            yield Case('row %d of %d' % (k, n), describe(v))
    for k in ('set', 'frozenset'):
        for n in (1, 2, 3):
            yield Case('%s of %d' % (k, n), other_sequences(k, n, 'int'),
                       'rev')
