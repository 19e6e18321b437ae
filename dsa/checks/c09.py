"""C09: every scalar name denotes the documented type."""
import ctypes
import numpy as np
from ..explore import Case, Violation
from ..values import *
from .common import *

EXPLAIN = (
    'The type tables are read from the abstractly interpreted modules and '
    'compared name by name with the documented table: the meaning of every '
    'name in text (through the interpreted parser, bare, with dimensions and '
    'inside a record), in the type registry and as a module attribute of the '
    'package and of coretypes; kind, item size and alignment of every sized '
    'type against the NumPy or C type of that name; no two names of '
    'different types denote equal types.')
FLOOR = {'quick': 100, 'thorough': 100}

PTR = ctypes.sizeof(ctypes.c_void_p) * 8
LONG = ctypes.sizeof(ctypes.c_long) * 8
SIZED = {
    'bool': np.bool_, 'int8': np.int8, 'int16': np.int16, 'int32': np.int32,
    'int64': np.int64, 'uint8': np.uint8, 'uint16': np.uint16,
    'uint32': np.uint32, 'uint64': np.uint64, 'float16': np.float16,
    'float32': np.float32, 'float64': np.float64,
    'complex[float32]': np.complex64, 'complex[float64]': np.complex128,
    'object': np.object_, 'char': np.dtype('S1')}
# name in text -> canonical name of a sized type, or a class
TEXT = {n: n for n in SIZED}
TEXT.update({
    'int': 'int32', 'real': 'float64', 'complex': 'complex[float64]',
    'complex64': 'complex[float32]', 'complex128': 'complex[float64]',
    'intptr': 'int%d' % PTR, 'uintptr': 'uint%d' % PTR, 'void': 'void'})
CLASSES = {'string': 'String', 'json': 'JSON', 'bytes': 'Bytes',
           'date': 'Date', 'time': 'Time', 'datetime': 'DateTime',
           'timedelta': 'TimeDelta', 'null': 'Null'}
REGISTRY = {k: v for k, v in TEXT.items() if k not in ('complex',)}
REGISTRY.update({'float': 'float32', 'double': 'float64'})
REG_CLASSES = {k: v for k, v in CLASSES.items() if k != 'json'}
ATTR = {
    'bool_': 'bool', 'char': 'char', 'int_': 'int32', 'real': 'float64',
    'complex_float32': 'complex[float32]',
    'complex_float64': 'complex[float64]', 'complex64': 'complex[float32]',
    'complex128': 'complex[float64]', 'complex_': 'complex[float64]',
    'intptr': 'int%d' % PTR, 'uintptr': 'uint%d' % PTR, 'half': 'float16',
    'single': 'float32', 'double': 'float64', 'void': 'void',
    'object_': 'object', 'pyobj': 'object',
    'c_byte': 'int8', 'c_short': 'int16', 'c_int': 'int32',
    'c_longlong': 'int64', 'c_ubyte': 'uint8', 'c_ushort': 'uint16',
    'c_ulonglong': 'uint64', 'c_long': 'int%d' % LONG,
    'c_ulong': 'uint%d' % LONG, 'c_ssize_t': 'int%d' % PTR,
    'c_size_t': 'uint%d' % PTR, 'c_half': 'float16', 'c_float': 'float32',
    'c_double': 'float64'}
for _n in SIZED:
    if _n.isalnum() and _n not in ('bool', 'object', 'char'):
        ATTR[_n] = _n
ATTR_CLASSES = {'string': 'String', 'json': 'JSON', 'bytes_': 'Bytes',
                'date_': 'Date', 'time_': 'Time', 'datetime_': 'DateTime',
                'timedelta_': 'TimeDelta', 'null': 'Null', 'var': 'Var'}
CTYPES = {'c_byte': ctypes.c_byte, 'c_short': ctypes.c_short,
          'c_int': ctypes.c_int, 'c_longlong': ctypes.c_longlong,
          'c_ubyte': ctypes.c_ubyte, 'c_ushort': ctypes.c_ushort,
          'c_ulonglong': ctypes.c_ulonglong, 'c_long': ctypes.c_long,
          'c_ulong': ctypes.c_ulong, 'c_ssize_t': ctypes.c_ssize_t,
          'c_size_t': ctypes.c_size_t, 'c_float': ctypes.c_float,
          'c_double': ctypes.c_double, 'intptr': ctypes.c_ssize_t,
          'uintptr': ctypes.c_size_t}
CANON = {'bool': 'bool_', 'complex[float32]': 'complex_float32',
         'complex[float64]': 'complex_float64', 'object': 'object_'}


def canon(L, n):
    return L.api(CANON.get(n, n), 'datashape.coretypes')


def denotes(L, v, want, what):
    L.check(L.isinst(v, 'CType'), '%s is %s' % (what, L.show(v)))
    L.check(L.eq(v, canon(L, want)), '%s is %s, not %s' % (
        what, L.show(v), want))
    name = L.attr(v, 'name')
    L.check(name == want, '%s is called %s, not %s' % (
        what, L.show(name), want))


def default(L, v, cls, what):
    L.check(L.isinst(v, cls), '%s is %s, no %s' % (what, L.show(v), cls))
    L.check(L.eq(v, L.new(cls)), '%s is %s, not the default %s' % (
        what, L.show(v), cls))


def in_text(name, judge, want):
    forms = {'bare': '%s', 'shaped': '3 * var * %s', 'field': '{a: %s}',
             'option': '?%s', 'item': '(%s, %s)', 'result': '(%s) -> %s'}

    def f(L):
        form = L.pick('form', list(forms))
        t = forms[form]
        d = L.call('dshape', t.replace('%s', name))
        m = L.attr(d, 'measure')
        if form == 'field':
            m = L.items(L.attr(m, 'types'))[0]
        elif form == 'option':
            m = L.attr(m, 'ty')
        elif form == 'item':
            m = L.items(L.attr(m, 'dshapes'))[1]
        elif form == 'result':
            m = L.attr(m, 'restype')
        if L.isinst(m, 'DataShape'):
            m = L.attr(m, 'measure')
        judge(L, m, want, 'the name %r in text' % name)
    return f


def in_registry(name, judge, want):
    def f(L):
        t = L.api('Type', 'datashape.coretypes')
        v = L.meth(t, 'lookup_type', name)
        judge(L, v, want, 'the registered type %r' % name)
    return f


def as_attribute(name, judge, want, module):
    def f(L):
        judge(L, L.api(name, module), want, '%s.%s' % (module, name))
    return f


def via_symbols(name, judge, want):
    def f(L):
        s = L.new(L.api('TypeSymbolTable', 'datashape.type_symbol_table'))
        v = L.i.getitem(L.attr(s, 'dtype'), name)
        judge(L, v, want, 'the symbol %r' % name)
    return f


def sized(name):
    def f(L):
        v = canon(L, name)
        d = np.dtype(SIZED[name])
        n, a = L.attr(v, 'itemsize'), L.attr(v, 'alignment')
        L.check(L.eq(n, d.itemsize), 'the item size of %s is %s, not %d' % (
            name, L.show(n), d.itemsize))
        L.check(L.eq(a, d.alignment), 'the alignment of %s is %s, not %d' % (
            name, L.show(a), d.alignment))
    return f


def c_alias(name):
    def f(L):
        v = L.api(name, 'datashape.coretypes')
        c = CTYPES[name]
        n, a = L.attr(v, 'itemsize'), L.attr(v, 'alignment')
        L.check(L.eq(n, ctypes.sizeof(c)), 'the size of %s is %s, not %d' % (
            name, L.show(n), ctypes.sizeof(c)))
        L.check(L.eq(a, ctypes.alignment(c)),
                'the alignment of %s is %s' % (name, L.show(a)))
        kind = 'float' if c in (ctypes.c_float, ctypes.c_double) else \
            'int' if c(-1).value < 0 else 'uint'
        got = L.attr(v, 'name')
        L.check(isinstance(got, str) and got.startswith(kind) and
                got[len(kind):].isdigit(), '%s is %s, no %s' % (
                    name, L.show(got), kind))
    return f


def distinct(a, b):
    def f(L):
        L.check(not L.eq(canon(L, a), canon(L, b)),
                '%s and %s are equal' % (a, b))
    return f


def complex_of(part, want):
    def f(L):
        d = L.call('dshape', 'complex[%s]' % part)
        denotes(L, L.attr(d, 'measure'), want, 'complex[%s]' % part)
    return f


def cases(L, tier):
    for table, judge in ((TEXT, denotes), (CLASSES, default)):
        for n, w in table.items():
            yield Case('%s in text' % n, in_text(n, judge, w))
            if '[' not in n:
                yield Case('%s as a symbol' % n, via_symbols(n, judge, w))
    for table, judge in ((REGISTRY, denotes), (REG_CLASSES, default)):
        for n, w in table.items():
            if n == 'void' or n not in ():
                yield Case('%s in the registry' % n, in_registry(n, judge, w))
    for table, judge in ((ATTR, denotes), (ATTR_CLASSES, default)):
        for n, w in table.items():
            for m in ('datashape.coretypes', 'datashape'):
                yield Case('%s.%s' % (m, n), as_attribute(n, judge, w, m))
    for n in SIZED:
        yield Case('size of %s' % n, sized(n))
    yield Case('void', lambda L: L.check(
        L.eq(L.attr(L.api('void'), 'itemsize'), 0), 'void has a size'))
    for n in CTYPES:
        yield Case('C type %s' % n, c_alias(n))
    ns = list(SIZED) + ['void']
    for i, a in enumerate(ns):
        for b in ns[i + 1:]:
            yield Case('%s and %s' % (a, b), distinct(a, b))
    for p, w in (('float32', 'complex[float32]'),
                 ('float64', 'complex[float64]'),
                 ('real', 'complex[float64]')):
        yield Case('complex[%s]' % p, complex_of(p, w))
