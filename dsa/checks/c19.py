"""C19: validation of values."""
import datetime as dt
from itertools import product
import numpy as np
from ..explore import Case, Violation
from ..values import *
from .common import *

EXPLAIN = (
    'Abstract interpretation of validate: every class of measure against an '
    'unknown value of every class (Python and NumPy scalars, sequences, '
    'mappings), dimension lists up to length two (three in the thorough '
    'tier) of every kind with unknown lengths against lists and tuples with '
    'a wrong element at every position, records of up to three fields '
    'against mappings and rows with a missing, extra or wrong item at every '
    'position, nested once, tuples of up to three schemas, and arrays of '
    'another length, rank or kind; the answer is compared with a reference '
    'validator written from the property.')
FLOOR = {'quick': 1500, 'thorough': 2500}

NUMPY = {'bool_': np.bool_, 'int8': np.int8, 'int16': np.int16,
         'int32': np.int32, 'int64': np.int64, 'uint8': np.uint8,
         'uint16': np.uint16, 'uint32': np.uint32, 'uint64': np.uint64,
         'float16': np.float16, 'float32': np.float32,
         'float64': np.float64, 'complex64': np.complex64,
         'complex128': np.complex128}
CLASSES = [bool, int, float, str, bytes, complex, dt.date, dt.time,
           dt.datetime, dt.timedelta, type(None), object] + sorted(
               NUMPY.values(), key=lambda c: c.__name__)
OTHER = ['Null', 'JSON', 'Bytes', 'TimeDelta', 'Units', 'Decimal', 'Option',
         'Map', 'TypeVar', 'Function1', 'Tuple2', 'Tuple0', 'Categorical',
         'char', 'void']


def admits(measure, cls):
    """True, False, or None: the documentation leaves it open."""
    if measure in NUMPY:
        own = {bool: np.bool_, int: np.int64, float: np.float64}.get(cls, cls)
        if own is NUMPY[measure]:
            return True
        if cls in (int, float) and own is not NUMPY[measure]:
            # other sizes of the same kind
            kind = {int: 'iu', float: 'f'}[cls]
            if np.dtype(NUMPY[measure]).kind in kind:
                return None
        return False
    if measure == 'object_':
        return None
    if measure == 'String':
        return cls is str
    if measure == 'Date':
        return cls in (dt.date, dt.datetime)
    if measure == 'Time':
        return cls is dt.time
    if measure == 'DateTime':
        return cls is dt.datetime
    # what these admit is not documented, but never these
    if measure == 'char' and cls in (str, bytes):
        return None
    if measure == 'void':
        return None
    if measure == 'Null' and cls is type(None):
        return None
    if measure == 'JSON':
        return None
    if measure == 'TypeVar':
        return None
    if measure == 'Bytes' and cls is bytes:
        return None
    if measure == 'TimeDelta' and cls is dt.timedelta:
        return None
    if measure in ('Decimal', 'Option', 'Units', 'Categorical'):
        return None if cls is not object else False
    return False


def value(L, cls, name='value'):
    if cls is type(None):
        return None
    if cls is object:
        return L.new(L.api('Anything'))
    if cls is bool:
        return L.pick(name, [True, False])
    if cls is int:
        return L.int(name)
    if cls is str:
        return L.text(name)
    return Sym(cls, name)


HELPERS = '''
class Anything(object):
    """A value of a class nothing is known about."""
'''


def judge(L, schema, v, want, may_raise=False):
    kind, r = L.outcome('validate', schema, v)
    what = 'validate(%s, %s)' % (L.show(schema), L.show(v))
    if kind == 'raise':
        L.check(may_raise, '%s raises %s' % (what, L.exc_text(r)))
        return
    if want is None:
        return
    L.check(L.truth(r) == want, '%s is %s' % (what, L.show(r)))


def scalar(shape, cls, form):
    def f(L):
        _, m = shape.make(L)
        if form == 'datashape':
            m = L.new('DataShape', m)
        # NumPy has no type for a char
        judge(L, m, value(L, cls), admits(shape.name, cls),
              shape.name == 'char')
    return f


TEXTS = {'bool': 'bool_', 'string': 'String', 'date': 'Date', 'time': 'Time',
         'datetime': 'DateTime', "string[5, 'ascii']": 'String', 'int':
         'int32', 'real': 'float64'}
TEXTS.update((n, n) for n in NUMPY if n != 'bool_')


def scalar_text(t, cls):
    def f(L):
        judge(L, t, value(L, cls), admits(TEXTS[t], cls))
    return f


def scalar_container(shape, form, make):
    def f(L):
        _, m = shape.make(L)
        if form == 'datashape':
            m = L.new('DataShape', m)
        judge(L, m, make(L), False)
    return f


CONTAINERS = {
    'list': lambda L: L.list([L.int('a')]),
    'empty list': lambda L: L.list([]),
    'tuple': lambda L: (L.int('a'), L.int('b')),
    'dict': lambda L: L.dict([('a', L.int('a'))]),
    'empty dict': lambda L: L.dict([]),
}


def dtype_schema(name, cls):
    def f(L):
        judge(L, np.dtype(NUMPY[name]), value(L, cls), admits(name, cls)
              if issubclass(cls, (np.generic, int, float, str)) else False)
    return f


def type_schema(t, cls):
    def f(L):
        want = issubclass(cls, t)
        judge(L, t, value(L, cls), want)
    return f


# ------------------------------------------------------------------- shapes
# A model of a value: ('v', cls) or ('s', seqtype, [values]) or
# ('m', [(key, value)]).  A model of a schema: ('m', name), ('d', kind, rest)
# with kind an integer, 'n' (unknown), 'V', 'T', 'E', or
# ('r', [(name, schema)]).

GOOD = {'int64': int, 'String': str, 'float64': float, 'Date': dt.date,
        'DateTime': dt.datetime, 'Time': dt.time, 'bool_': bool}
MAKE = {'String': lambda L: L.api('string'), 'Date': lambda L: L.api('date_'),
        'DateTime': lambda L: L.new('DateTime', L.text('tz')),
        'Time': lambda L: L.api('time_')}
TEXT = {'int64': 'int64', 'String': 'string', 'float64': 'float64',
        'Date': 'date', 'DateTime': 'datetime', 'Time': 'time',
        'bool_': 'bool'}


def mk_schema(L, s, env):
    if s[0] == 'm':
        return L.new('DataShape', MAKE[s[1]](L) if s[1] in MAKE
                     else L.api(s[1]))
    if s[0] == 'r':
        return L.new('DataShape', L.new('Record', L.list(
            [(n, mk_schema(L, t, env)) for n, t in s[1]])))
    if s[1] == 'n':
        n = env.setdefault(id(s), L.int('n', 0))
        d = L.new('Fixed', n)
    elif s[1] == 'V':
        d = L.new('Var')
    elif s[1] == 'T':
        d = L.new('TypeVar', L.text('T', UPPER))
    elif s[1] == 'E':
        d = L.new('Ellipsis')
    else:
        d = L.new('Fixed', s[1])
    return L.new('DataShape', d, mk_schema(L, s[2], env))


def mk_text(s):
    if s[0] == 'm':
        return TEXT[s[1]]
    if s[0] == 'r':
        return '{%s}' % ', '.join('%s: %s' % (n, mk_text(t))
                                  for n, t in s[1])
    return {'V': 'var', 'T': 'T', 'E': '...'}.get(s[1], str(s[1])) + \
        ' * ' + mk_text(s[2])


def has_kind(s, k):
    if s[0] == 'm':
        return False
    if s[0] == 'r':
        return any(has_kind(t, k) for n, t in s[1])
    return s[1] == k or has_kind(s[2], k)


def mk_value(L, v):
    if v[0] == 'v':
        return value(L, v[1])
    if v[0] == 's':
        xs = [mk_value(L, x) for x in v[2]]
        return tuple(xs) if v[1] == 'tuple' else L.list(xs)
    return L.dict([(k, mk_value(L, x)) for k, x in v[1]])


def valid(L, s, v, env):
    """The reference validator."""
    if s[0] == 'm':
        return v[0] == 'v' and bool(admits(s[1], v[1]))
    if s[0] == 'r':
        if v[0] == 'm':
            d = dict(v[1])
            return all(n in d and valid(L, t, d[n], env) for n, t in s[1])
        if v[0] == 's':
            return len(v[2]) == len(s[1]) and all(
                valid(L, t, x, env) for (n, t), x in zip(s[1], v[2]))
        return False
    if v[0] != 's' or s[1] in 'TE' if isinstance(s[1], str) else v[0] != 's':
        return False
    if s[1] == 'n':
        if not L.truth(L.i.compare('==', env[id(s)], len(v[2]))):
            return False
    elif s[1] != 'V' and s[1] != len(v[2]):
        return False
    return all(valid(L, s[2], x, env) for x in v[2])


def check(s, v, form):
    def f(L):
        env = {}
        if form == 'text':
            sch = mk_text(s)
        else:
            sch = mk_schema(L, s, env)
            if form == 'measure':
                sch = L.attr(sch, 'measure')
            elif form == 'tuple':
                sch = (sch,)
        # decide the lengths first, so that every partition is judged
        want = valid(L, s, v, env)
        judge(L, sch, mk_value(L, v), want, has_kind(s, 'E'))
    return f


def any_of(ss, vs):
    def f(L):
        v = mk_value(L, vs)
        env = {}
        objs = tuple(mk_schema(L, s, env) if k % 2 else mk_text(s)
                     for k, s in enumerate(ss))
        want = any(valid(L, s, vs, env) for s in ss)
        judge(L, objs, v, want)
    return f


def array(text, shape, dtype, want):
    def f(L):
        a = np.zeros(shape, dtype)
        judge(L, L.new('dshape', text), a, want)
        judge(L, text, a, want)
    return f


BAD = {'int64': [str, dt.date, type(None), np.int32],
       'String': [int, bytes, type(None)], 'float64': [int, str],
       'Date': [dt.time, str], 'Time': [dt.datetime],
       'DateTime': [dt.date, type(None)], 'bool_': [int, str]}


def values_for(s, seqs=('list', 'tuple'), lens=(0, 1, 2, 3), deep=True):
    """Value models: valid ones, and ones wrong in one place."""
    if s[0] == 'm':
        yield ('v', GOOD[s[1]])
        for c in BAD[s[1]][:2 if not deep else 4]:
            yield ('v', c)
        if deep:
            yield ('s', 'list', [('v', GOOD[s[1]])])
            yield ('m', [('a', ('v', GOOD[s[1]]))])
        return
    if s[0] == 'r':
        good = [(n, good_value(t)) for n, t in s[1]]
        yield ('m', good)
        for q in seqs:
            yield ('s', q, [x for n, x in good])
        for k, (n, t) in enumerate(s[1]):
            yield ('m', good[:k] + good[k + 1:])
            for q in seqs:
                yield ('s', q, [x for j, (m, x) in enumerate(good)
                                if j != k])
            for bad in values_for(t, ('tuple',), (0, 2, 3), False):
                yield ('m', good[:k] + [(n, bad)] + good[k + 1:])
                for q in seqs:
                    xs = [x for m, x in good]
                    xs[k] = bad
                    yield ('s', q, xs)
            # renamed key
            yield ('m', good[:k] + [('other', good[k][1])] + good[k + 1:])
        for q in seqs:
            yield ('s', q, [x for n, x in good] + [('v', int)])
            yield ('s', q, [x for n, x in good] * 2 + [('v', str)])
        yield ('m', list(reversed(good)))
        yield ('v', int)
        yield ('v', str)
        if good:
            yield ('m', [])
            for q in seqs:
                yield ('s', q, [])
                yield ('s', q, [x for n, x in reversed(good)])
                yield ('s', q, [('s', q, [x for n, x in good])])
            yield ('s', 'list', [('m', good)])
        return
    good = good_value(s[2])
    for n in lens:
        for q in seqs:
            yield ('s', q, [good] * n)
            for k in range(n):
                for bad in list(values_for(s[2], ('tuple',), (0, 1, 2),
                                           False))[:40 if deep else 8]:
                    xs = [good] * n
                    xs[k] = bad
                    yield ('s', q, xs)
    yield ('v', int)
    yield ('v', str)
    yield ('v', type(None))
    yield ('m', [('a', good), ('b', good)])
    yield good


def good_value(s):
    if s[0] == 'm':
        return ('v', GOOD[s[1]])
    if s[0] == 'r':
        return ('m', [(n, good_value(t)) for n, t in s[1]])
    n = s[1] if isinstance(s[1], int) else 2
    return ('s', 'list', [good_value(s[2])] * n)


def schemas(deep):
    i64, st, da, fl = ('m', 'int64'), ('m', 'String'), ('m', 'Date'), \
        ('m', 'float64')
    kinds = [2, 'n', 'V', 'T', 'E', 0]
    for k in kinds:
        for m in (i64, st):
            yield ('d', k, m)
    for a, b in product([2, 'n', 'V', 'T'], repeat=2):
        yield ('d', a, ('d', b, i64))
    r1 = ('r', [('x', i64)])
    r2 = ('r', [('x', i64), ('y', st)])
    r3 = ('r', [('x', fl), ('y', ('m', 'Time')), ('z', ('m', 'DateTime'))])
    rd = ('r', [('x', da), ('v', ('d', 2, i64))])
    rn = ('r', [('x', r2), ('y', i64)])
    for r in (('r', []), r1, r2, r3, rd, rn,
              ('r', [('x', i64), ('y', i64)]),
              ('r', [('x', st), ('w', ('d', 'V', st))])):
        yield r
        yield ('d', 'n', r)
        yield ('d', 'V', r)
    if deep:
        for a, b, c in product([2, 'n', 'V'], repeat=3):
            yield ('d', a, ('d', b, ('d', c, st)))
        for k in ('n', 'V', 2):
            for r in (r2, rn, rd):
                yield ('d', 'V', ('d', k, r))
                yield ('r', [('a', ('d', k, r)), ('b', i64)])


def long_cases(deep):
    i64, st = ('m', 'int64'), ('m', 'String')
    good, bad = ('v', int), ('v', str)
    for n in (5, 7, 12, 150):
        for k in (n, 'V', 'n'):
            s = ('d', k, i64)
            places = range(n) if n < 20 else (0, 9, 63, 64, 99, 100, 127,
                                              n - 1)
            vs = [[good] * n]
            vs += [[good] * w + [bad] + [good] * (n - 1 - w) for w in places]
            if k == n:
                vs += [[good] * (n + 1), [good] * (n - 1), [good] * (2 * n)]
            for j, v in enumerate(vs):
                for q in ('list', 'tuple'):
                    yield '%d of %s (%s)' % (n, j, k), s, ('s', q, v)
    for n in (5, 9, 12):
        s = ('r', [('f%d' % k, i64) for k in range(n)])
        g = [('f%d' % k, good) for k in range(n)]
        yield 'record of %d' % n, s, ('m', g)
        yield 'row of %d' % n, s, ('s', 'list', [good] * n)
        for w in range(n):
            yield 'missing %d of %d' % (w, n), s, ('m', g[:w] + g[w + 1:])
            yield 'wrong %d of %d' % (w, n), s, (
                'm', g[:w] + [('f%d' % w, bad)] + g[w + 1:])
            yield 'row, wrong %d of %d' % (w, n), s, (
                's', 'tuple', [good] * w + [bad] + [good] * (n - 1 - w))
            yield 'list, wrong %d of %d' % (w, n), s, (
                's', 'list', [good] * w + [bad] + [good] * (n - 1 - w))
            yield 'row of %d for %d' % (w, n), s, ('s', 'tuple', [good] * w)
            t = ('r', [('f%d' % k, st if k == w else i64)
                       for k in range(n)])
            yield 'other %d of %d' % (w, n), t, (
                'm', g[:w] + [('f%d' % w, bad)] + g[w + 1:])
            yield 'row, other %d of %d' % (w, n), t, (
                's', 'list', [good] * w + [bad] + [good] * (n - 1 - w))
        for d in (1, 2, n):
            yield 'row of %d for %d' % (n + d, n), s, (
                's', 'tuple', [good] * (n + d))
    # deep: dimensions below dimensions, one wrong element
    for depth in (3, 4, 6):
        s = i64
        v = good
        wrongs = [bad, ('s', 'list', [good])]
        for d in range(depth):
            s = ('d', 2 if d % 2 else 'V', s)
            wrongs = [('s', 'list', [v, w]) for w in wrongs] + \
                [('s', 'tuple', [w, v]) for w in wrongs[:2]] + [good] + \
                ([('s', 'list', [v] * 3)] if d % 2 else [])
            v = ('s', 'list', [v, v])
        yield 'depth %d' % depth, s, v
        for k, w in enumerate(wrongs[:40]):
            yield 'depth %d, wrong %d' % (depth, k), s, w
    for depth in (3, 5):
        s, v = i64, good
        wrongs = [bad]
        for d in range(depth):
            s = ('r', [('a', i64), ('b', s)])
            wrongs = [('m', [('a', good), ('b', w)]) for w in wrongs] + \
                [('s', 'tuple', [good, w]) for w in wrongs[:2]] + \
                [('m', [('a', good)]), ('m', [('a', bad), ('b', v)])]
            v = ('m', [('a', good), ('b', v)])
        yield 'records %d deep' % depth, s, v
        for k, w in enumerate(wrongs[:40]):
            yield 'records %d deep, wrong %d' % (depth, k), s, w


def cases(L, tier):
    deep = tier == 'thorough'
    for s in measures():
        forms = ('bare', 'datashape')
        for form in forms:
            for c in CLASSES:
                if s.name.startswith(('Record', 'Tuple')) or s.name in NUMPY \
                        or s.name in OTHER or s.name in (
                            'object_', 'String', 'Date', 'Time', 'DateTime'):
                    yield Case('%s %s, %s' % (form, s.name, c.__name__),
                               scalar(s, c, form))
            if s.name in NUMPY or s.name in ('String', 'Date', 'Time',
                                             'DateTime', 'TimeDelta',
                                             'Decimal', 'Bytes', 'Null'):
                for n, mk in CONTAINERS.items():
                    yield Case('%s %s, %s' % (form, s.name, n),
                               scalar_container(s, form, mk))
    for t in TEXTS:
        for c in CLASSES:
            yield Case('text %s, %s' % (t, c.__name__), scalar_text(t, c))
    for n in NUMPY:
        for c in CLASSES:
            yield Case('dtype %s, %s' % (n, c.__name__), dtype_schema(n, c))
    for t in (int, float, str, dt.date, dt.datetime, np.integer, np.number,
              np.int32, bool):
        for c in CLASSES:
            yield Case('class %s, %s' % (t.__name__, c.__name__),
                       type_schema(t, c))
    for s in schemas(deep):
        for k, v in enumerate(values_for(s)):
            for form in ('datashape', 'text', 'tuple'):
                if form == 'text' and has_kind(s, 'n'):
                    continue
                if form == 'tuple' and k % 5:
                    continue
                yield Case('%s %s, %s' % (form, name(s), name(v)),
                           check(s, v, form))
            if s[0] == 'r':
                yield Case('measure %s, %s' % (name(s), name(v)),
                           check(s, v, 'measure'))
    for n, sch, v in long_cases(deep):
        for form in ('datashape', 'text'):
            if not (form == 'text' and has_kind(sch, 'n')):
                yield Case('%s, %s %s' % (form, n, v[0]),
                           check(sch, v, form))
    for n in (4, 6, 9):
        for w in range(n + 1):
            ss = [('m', 'String'), ('d', 2, ('m', 'int64')),
                  ('r', [('x', ('m', 'int64'))])] * 3
            ss = ss[:n]
            if w < n:
                ss[w] = ('m', 'Date')
            for v in (('v', dt.date), ('v', bytes)):
                yield Case('any of %d, %d fits, %s' % (n, w, name(v)),
                           any_of(ss, v))
    base = [('m', 'int64'), ('m', 'String'), ('m', 'Date'),
            ('d', 2, ('m', 'int64')), ('r', [('x', ('m', 'int64'))])]
    vals = [('v', int), ('v', str), ('v', dt.date), ('v', dt.time),
            ('s', 'list', [('v', int)] * 2), ('s', 'tuple', [('v', int)]),
            ('m', [('x', ('v', int))]), ('v', type(None))]
    for n in range(4 if deep else 3):
        for ss in product(base, repeat=n):
            for v in vals:
                yield Case('any of %s, %s' % (list(map(name, ss)), name(v)),
                           any_of(ss, v))
    for text, shape, d, want in (
            ('2 * int32', (2,), 'i4', True), ('2 * int32', (3,), 'i4', False),
            ('2 * int32', (2, 1), 'i4', False), ('2 * int32', (), 'i4', False),
            ('2 * int32', (2,), 'i8', False),
            ('2 * int32', (2,), 'f4', False),
            ('2 * 3 * float64', (2, 3), 'f8', True),
            ('2 * 3 * float64', (3, 2), 'f8', False),
            ('2 * 3 * float64', (2,), 'f8', False),
            ('2 * 3 * float64', (6,), 'f8', False),
            ('2 * bool', (2,), '?', True), ('2 * bool', (2,), 'i1', False),
            ('2 * {a: int32}', (2,), [('a', 'i4')], True),
            ('2 * {a: int32}', (2,), [('b', 'i4')], False),
            ('2 * {a: int32}', (2,), [('a', 'i4'), ('b', 'i4')], False),
            ('2 * {a: int32}', (2,), 'i4', False),
            ('2 * int32', (0,), 'i4', False),
            ('2 * 3 * int32', (0, 3), 'i4', False),
            ('2 * 3 * int32', (2, 0), 'i4', False),
            ('0 * 3 * int32', (0, 3), 'i4', True),
            ('0 * 3 * int32', (0, 4), 'i4', False),
            ('2 * 3 * 4 * 5 * int32', (2, 3, 4, 5), 'i4', True),
            ('2 * 3 * 4 * 5 * int32', (2, 3, 4, 6), 'i4', False),
            ('2 * 3 * 4 * 5 * int32', (2, 4, 3, 5), 'i4', False),
            ('2 * 3 * 4 * 5 * int32', (2, 3, 20), 'i4', False),
            ('1 * int32', (), 'i4', False),
            ('1 * int32', (1, 1), 'i4', False),
            ('0 * int32', (0,), 'i4', True), ('0 * int32', (1,), 'i4', False)):
        yield Case('array %s, %s %s' % (text, shape, d),
                   array(text, shape, d, want))


def name(x):
    if x[0] == 'v':
        return x[1].__name__
    if x[0] == 's':
        return '%s[%s]' % (x[1][0], ', '.join(map(name, x[2])))
    if x[0] == 'm' and isinstance(x[1], list):
        return '{%s}' % ', '.join('%s: %s' % (k, name(v)) for k, v in x[1])
    if x[0] == 'm':
        return x[1]
    if x[0] == 'r':
        return '{%s}' % ', '.join('%s: %s' % (k, name(v)) for k, v in x[1])
    return '%s * %s' % (x[1], name(x[2]))
