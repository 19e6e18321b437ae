"""C14: discovery of scalar values."""
import collections
import datetime as dt
import decimal
import fractions
import numpy as np
from ..explore import Case, Violation
from ..values import *
from .common import *

EXPLAIN = (
    'Abstract interpretation of discover on an unknown value of every Python '
    'scalar class, of every NumPy scalar class (with every unit for times), '
    'of subclasses of each written in the harness, and of classes that are '
    'not supported.  Dispatch is resolved on the table the package builds; '
    'when several rules apply and none is more specific, every one of them '
    'must give the required answer.  Required: the type of the most specific '
    'supported class.')
FLOOR = {'quick': 100, 'thorough': 100}

HELPERS = '''
import collections
import datetime
import enum


class MyInt(int):
    pass

class MyInt2(MyInt):
    pass

class MyFloat(float):
    pass

class MyComplex(complex):
    pass

class MyBytes(bytes):
    pass

class MyDate(datetime.date):
    pass

class MyDateTime(datetime.datetime):
    pass

class MyTime(datetime.time):
    pass

class MyDelta(datetime.timedelta):
    pass

class MyDict(dict):
    pass

class MyOrdered(collections.OrderedDict):
    pass

class MyList(list):
    pass

class MyTuple(tuple):
    pass

class Anything(object):
    pass

class HasShape(object):
    shape = (2,)

class HasDtype(object):
    dtype = 'int32'

class HasLen(object):
    def __len__(self):
        return 2
    def __iter__(self):
        return iter([1, 2])
'''

NPTYPE = {np.bool_: 'bool_', np.int8: 'int8', np.int16: 'int16',
          np.int32: 'int32', np.int64: 'int64', np.uint8: 'uint8',
          np.uint16: 'uint16', np.uint32: 'uint32', np.uint64: 'uint64',
          np.float16: 'float16', np.float32: 'float32',
          np.float64: 'float64', np.complex64: 'complex64',
          np.complex128: 'complex128'}


def judge(L, v, want, what):
    got = L.call('discover', v)
    L.check(L.eq(got, want) and L.eq(want, got), 'discover(%s) is %s' % (
        what, L.show(got)))
    return got


def scalar(make, want, what):
    def f(L):
        w = want(L)
        got = judge(L, make(L), w, what)
        if not L.isinst(w, 'DataShape'):
            L.check(L.i.type_of(L.i.res(got)) is L.i.type_of(L.i.res(w)) or
                    L.isinst(got, 'DataShape'),
                    'discover(%s) is a %s' % (what, L.show(got)))
    return f


def instance(cls, base):
    """An instance of a subclass written in the harness; a plain container
    is filled."""
    def mk(L):
        c = L.api(cls)
        if base in (int, float, complex, bytes):
            return L.new(c, {int: 5, float: 1.5, complex: 2j,
                             bytes: b'ab'}[base])
        if base is dt.date:
            return L.new(c, 2000, 1, 2)
        if base is dt.datetime:
            return L.new(c, 2000, 1, 2, 3, 4)
        if base is dt.time:
            return L.new(c, 1, 2, 3)
        if base is dt.timedelta:
            return L.new(c, 3)
        return L.new(c)
    return mk


def unsupported(make, what):
    def f(L):
        kind, v = L.outcome('discover', make(L))
        L.check(kind == 'raise', 'discover(%s) is %s' % (what, L.show(v)))
        L.check(L.exc_is(v, NotImplementedError), 'discover(%s) raises %s' % (
            what, L.exc_text(v)))
    return f


def mapping(kind):
    """Order of the fields tells which rule was used."""
    def f(L):
        pairs = [('b', 1), ('a', 2.5), ('c', True)]
        types = {'a': 'float64', 'b': 'int64', 'c': 'bool_'}
        if kind == 'dict':
            v = L.dict(pairs)
        elif kind == 'proxy':
            import types as t
            v = L.i.res(L.i.call(t.MappingProxyType, [L.dict(pairs)], {}))
        elif kind == 'ordered':
            v = L.i.res(L.i.call(collections.OrderedDict,
                                 [L.list([tuple(p) for p in pairs])], {}))
        elif kind == 'MyOrdered':
            v = L.new('MyOrdered', L.list([tuple(p) for p in pairs]))
        else:
            v = L.new('MyDict', L.list([tuple(p) for p in pairs]))
        order = 'bac' if kind.lower().endswith('ordered') else 'abc'
        want = L.new('Record', L.list([(n, L.api(types[n])) for n in order]))
        judge(L, v, want, kind)
    return f


def api(name):
    return lambda L: L.api(name)


def cases(L, tier):
    sym = lambda c: (lambda L: Sym(c, 'value'))
    us = lambda L: L.new('TimeDelta', 'us')
    py = [('True', lambda L: True, api('bool_')),
          ('False', lambda L: False, api('bool_')),
          ('an integer', lambda L: L.int('value'), api('int64')),
          ('a large integer', lambda L: 2 ** 70, api('int64')),
          ('zero', lambda L: 0, api('int64')),
          ('one', lambda L: 1, api('int64')),
          ('a float', sym(float), api('float64')),
          ('an integral float', lambda L: 1.0, api('float64')),
          ('nan', lambda L: float('nan'), api('float64')),
          ('a complex', sym(complex), api('complex128')),
          ('a datetime', sym(dt.datetime), api('datetime_')),
          ('midnight', lambda L: dt.datetime(2000, 1, 1), api('datetime_')),
          ('a datetime with a zone', lambda L: dt.datetime(
              2000, 1, 1, tzinfo=dt.timezone.utc), api('datetime_')),
          ('a date', sym(dt.date), api('date_')),
          ('a certain date', lambda L: dt.date(2000, 1, 1), api('date_')),
          ('a time', sym(dt.time), api('time_')),
          ('midnight time', lambda L: dt.time(0), api('time_')),
          ('a time delta', sym(dt.timedelta), us),
          ('no time delta', lambda L: dt.timedelta(0), us),
          ('None', lambda L: None, api('null')),
          ('the null type', api('null'), api('null')),
          ('a null type', lambda L: L.new('Null'), api('null')),
          ('bytes', lambda L: b'abc', lambda L: L.new('String', 'A')),
          ('empty bytes', lambda L: b'', lambda L: L.new('String', 'A')),
          ('digits as bytes', lambda L: b'12', lambda L: L.new('String',
                                                               'A')),
          ('empty text', lambda L: '', api('null'))]
    A = lambda L: L.new('String', 'A')
    for n, v in (('long bytes', b'a' * 300), ('bytes beyond ASCII', b'\xff'),
                 ('bytes of a date', b'2010-01-01'), ('a null byte', b'\0'),
                 ('bytes of a number', b'1.5'), ('bytes of lines', b'a\nb'),
                 ('blank bytes', b'  '), ('bytes None', b'None')):
        py.append((n, lambda L, v=v: v, A))
    py.append(('unknown bytes', sym(bytes), A))
    for v in (float('inf'), -0.0, 1e300, 5e-324, 2.0 ** 60):
        py.append(('the float %r' % v, lambda L, v=v: v, api('float64')))
    for v in (2 ** 31, 2 ** 63, -2 ** 63 - 1, 255, -1):
        py.append(('the integer %d' % v, lambda L, v=v: v, api('int64')))
    py.append(('a real complex', lambda L: 1 + 0j, api('complex128')))
    for k in (dict(days=1), dict(seconds=1), dict(microseconds=1),
              dict(days=400, seconds=3), dict(days=-1)):
        py.append(('the time delta %s' % k,
                   lambda L, k=k: dt.timedelta(**k), us))
    py.append(('a time with a zone', lambda L: dt.time(
        1, 2, tzinfo=dt.timezone.utc), api('time_')))
    py.append(('NumPy bytes', lambda L: np.bytes_(b'abc'), A))
    for n, mk, want in py:
        yield Case(n, scalar(mk, want, n))
    for c, base, want in (
            ('MyInt', int, api('int64')), ('MyInt2', int, api('int64')),
            ('MyFloat', float, api('float64')),
            ('MyComplex', complex, api('complex128')),
            ('MyBytes', bytes, lambda L: L.new('String', 'A')),
            ('MyDate', dt.date, api('date_')),
            ('MyDateTime', dt.datetime, api('datetime_')),
            ('MyTime', dt.time, api('time_')),
            ('MyDelta', dt.timedelta, us)):
        yield Case('an instance of ' + c, scalar(instance(c, base), want, c))
    for c, t in sorted(NPTYPE.items(), key=lambda x: x[1]):
        for v in (0, 1, c(1)):
            yield Case('%s %r' % (c.__name__, v),
                       scalar(lambda L, c=c, v=v: c(v), api(t), c.__name__))
        yield Case('unknown %s' % c.__name__, scalar(
            lambda L, c=c: Sym(c, 'value'), api(t), c.__name__))
        for v in (100, -1 if 'u' not in c.__name__ else 200):
            yield Case('%s %r' % (c.__name__, v), scalar(
                lambda L, c=c, v=v: np.array(v).astype(c)[()], api(t),
                c.__name__))
        # zero dimensions
        yield Case('array of %s' % c.__name__, scalar(
            lambda L, c=c: np.zeros((), c), api(t), c.__name__))
    for c in (np.intc, np.intp, np.uintc, np.uintp, np.longlong,
              np.ulonglong, np.byte, np.ubyte, np.short, np.ushort):
        d = np.dtype(c)
        t = '%s%d' % ('int' if d.kind == 'i' else 'uint', d.itemsize * 8)
        yield Case('%s scalar' % c.__name__, scalar(
            lambda L, c=c: c(3), api(t), c.__name__))
    for u in ('Y', 'M', 'W', 'D', 'h', 'm', 's', 'ms', 'us', 'ns'):
        yield Case('timedelta64 %s' % u, scalar(
            lambda L, u=u: np.timedelta64(3, u),
            lambda L, u=u: L.new('TimeDelta', u), 'timedelta64 ' + u))
        if u == 'D' or u not in 'YMW':
            yield Case('datetime64 %s' % u, scalar(
                lambda L, u=u: np.datetime64('2000-01-01', u),
                api('date_') if u == 'D' else api('datetime_'),
                'datetime64 ' + u))
    for k in ('dict', 'proxy', 'ordered', 'MyOrdered', 'MyDict'):
        yield Case('mapping ' + k, mapping(k))
    for n, mk in (
            ('an object', lambda L: L.new('Anything')),
            ('an object with a shape', lambda L: L.new('HasShape')),
            ('an object with a dtype', lambda L: L.new('HasDtype')),
            ('an object with a length', lambda L: L.new('HasLen')),
            ('a class', lambda L: L.api('Anything')),
            ('the class int', lambda L: int),
            ('a function', lambda L: L.api('dshape')),
            ('a range', lambda L: range(3)),
            ('an iterator', lambda L: L.i.res(L.i.call(iter, [L.list([1])],
                                                       {}))),
            ('a decimal', lambda L: decimal.Decimal('1.5')),
            ('a fraction', lambda L: fractions.Fraction(1, 2)),
            ('a slice', lambda L: slice(None)),
            ('a zone', lambda L: dt.timezone.utc),
            ('NotImplemented', lambda L: NotImplemented),
            ('a bytearray', lambda L: bytearray(b'a')),
            ('a datashape', lambda L: L.new('dshape', '3 * int32')),
            ('a measure', lambda L: L.api('int32')),
            ('a string type', lambda L: L.api('string')),
            ('a date type', lambda L: L.api('date_'))):
        yield Case('unsupported ' + n, unsupported(mk, n))
