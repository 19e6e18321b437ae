"""Reference semantics of discovery: models of values, the documented
conversion order, and what it means that a datashape describes a value."""
import datetime as dt
from ..values import *
from .common import *

# general -> special, as documented in discovery.py
ORDER = {
    'string': {'int64', 'float64', 'date', 'datetime', 'timedelta', 'bool',
               'null'},
    'datetime': {'date'},
    'int64': {'int32'},
    'float64': {'int64'},
}
API = {'string': 'string', 'int64': 'int64', 'float64': 'float64',
       'date': 'date_', 'datetime': 'datetime_', 'timedelta': 'timedelta_',
       'bool': 'bool_', 'int32': 'int32', 'null': 'null',
       'complex128': 'complex128', 'float32': 'float32', 'time': 'time_',
       'int8': 'int8', 'object': 'object_', 'json': 'json'}
KNOWN = ['string', 'int64', 'float64', 'date', 'datetime', 'timedelta',
         'bool', 'int32']


def above(t):
    """Everything t can be turned into, itself included."""
    out = {t}
    while True:
        new = {g for g, ss in ORDER.items() if ss & out} - out
        if not new:
            return out
        out |= new


def lub(types):
    """Least upper bound, or None."""
    types = set(types)
    if len(types) == 1:
        t = next(iter(types))
        return t
    if not types <= set(KNOWN):
        return None
    ups = set.intersection(*[above(t) for t in types])
    least = [u for u in ups if all(u == v or v in above(u) for v in ups)]
    return least[0] if len(least) == 1 else None


# Scalar values: name of the model -> (maker, discovered type)
SCALAR = {
    'int': (lambda L, n: L.int(n), 'int64'),
    'float': (lambda L, n: Sym(float, n), 'float64'),
    'true': (lambda L, n: True, 'bool'),
    'none': (lambda L, n: None, 'null'),
    'date': (lambda L, n: Sym(dt.date, n), 'date'),
    'datetime': (lambda L, n: Sym(dt.datetime, n), 'datetime'),
    'time': (lambda L, n: Sym(dt.time, n), 'time'),
    'delta': (lambda L, n: Sym(dt.timedelta, n), 'timedelta'),
    'complex': (lambda L, n: Sym(complex, n), 'complex128'),
    'bytes': (lambda L, n: b'abc', 'bytes'),
    'text': (lambda L, n: 'hello', 'string'),
}


def ty(L, name):
    if name == 'bytes':
        return L.new('String', 'A')
    return L.api(API[name])


def make(L, v, path='v'):
    """Abstract value of a model: a scalar name, a list, a tuple, or a dict
    (a list of pairs in a one-element tuple ('dict', pairs))."""
    if isinstance(v, str):
        return SCALAR[v][0](L, path)
    if isinstance(v, list):
        return L.list([make(L, x, '%s.%d' % (path, k))
                       for k, x in enumerate(v)])
    kind, xs = v
    if kind == 'tuple':
        return tuple(make(L, x, '%s.%d' % (path, k))
                     for k, x in enumerate(xs))
    pairs = [(k, make(L, x, '%s.%s' % (path, k))) for k, x in xs]
    if kind == 'ordered':
        import collections
        return L.i.res(L.i.call(collections.OrderedDict, [L.list(
            [tuple(p) for p in pairs])], {}))
    return L.dict(pairs)


def name(v):
    if isinstance(v, str):
        return v
    if isinstance(v, list):
        return '[%s]' % ', '.join(map(name, v))
    kind, xs = v
    if kind == 'tuple':
        return '(%s)' % ', '.join(map(name, xs))
    return '%s{%s}' % ('' if kind == 'dict' else 'o', ', '.join(
        '%s: %s' % (k, name(x)) for k, x in xs))


def strip(L, ds):
    """(measure or datashape without an option mark, whether it had one)"""
    opt = False
    while True:
        if L.isinst(ds, 'DataShape') and \
                len(L.items(L.attr(ds, 'parameters'))) == 1:
            ds = L.items(L.attr(ds, 'parameters'))[0]
        elif L.isinst(ds, 'Option'):
            ds = L.attr(ds, 'ty')
            opt = True
        else:
            return ds, opt


def describes(L, ds, v):
    """Reason why the datashape does not describe the value, or None."""
    m, opt = strip(L, ds)
    if v == 'none':
        if opt or L.isinst(m, 'Null'):
            return None
        return '%s for a missing value' % L.show(ds)
    if isinstance(v, str):
        t = SCALAR[v][1]
        if L.eq(m, ty(L, t)):
            return None
        for g in above(t) if t in API else ():
            if L.eq(m, ty(L, g)):
                return None
        return '%s for %s' % (L.show(ds), v)
    if isinstance(v, tuple) and v[0] != 'tuple':
        if not L.isinst(m, 'Record'):
            return '%s for a mapping' % L.show(ds)
        fields = [(L.i.res(n), t) for n, t in
                  (L.items(f) for f in L.items(L.attr(m, 'fields')))]
        d = dict(v[1])
        names = [n for n, t in fields]
        for k in d:
            if names.count(k) != 1:
                return 'field %s missing in %s' % (k, L.show(ds))
        for n, t in fields:
            why = describes(L, t, d.get(n, 'none'))
            if why:
                return why + ' (field %s)' % n
        return None
    xs = v if isinstance(v, list) else v[1]
    if not xs:
        # nothing is said about an empty sequence
        return None
    if L.isinst(m, 'Tuple'):
        ts = L.items(L.attr(m, 'dshapes'))
        if len(ts) != len(xs):
            return '%s for %d elements' % (L.show(ds), len(xs))
        for t, x in zip(ts, xs):
            why = describes(L, t, x)
            if why:
                return why
        return None
    if L.isinst(m, 'DataShape'):
        ps = L.items(L.attr(m, 'parameters'))
        d = ps[0]
        if L.isinst(d, 'Fixed'):
            if not L.eq(L.attr(d, 'val'), len(xs)):
                return '%s for %d elements' % (L.show(ds), len(xs))
        elif not L.isinst(d, 'Var'):
            return '%s for %d elements' % (L.show(ds), len(xs))
        rest = L.new('DataShape', *ps[1:])
        for x in xs:
            why = describes(L, rest, x)
            if why:
                return why
        return None
    return '%s for %d elements' % (L.show(ds), len(xs))
