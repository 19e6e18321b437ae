"""C11: the NumPy type of a decimal holds all its digits."""
import numpy as np
from ..explore import Case, Violation
from ..values import *
from .common import *

EXPLAIN = (
    'Interval analysis of the decimal conversion: the precision is an unknown '
    'integer whose interval every comparison refines, and on each path the '
    'remaining interval must lie inside the range of precisions for which the '
    'returned NumPy type is the smallest signed integer type with room for '
    'all digits (above 18: TypeError); an unknown scale other than zero must '
    'give a double.  The ranges are derived from the types\' own limits.  '
    'Conversion is entered through the method, to_numpy_dtype and to_numpy.')
FLOOR = {'quick': 150, 'thorough': 150}


def right_type(p):
    for n in (8, 16, 32, 64):
        if 10 ** p - 1 <= 2 ** (n - 1) - 1:
            return np.dtype('int%d' % n)


RANGES = {}
for _p in range(1, 19):
    RANGES.setdefault(right_type(_p), []).append(_p)


def method(L, d):
    return L.outcome(L.attr(d, 'to_numpy_dtype'))


def function(L, d):
    return L.outcome(L.api('to_numpy_dtype', 'datashape.coretypes'), d)


def shaped(L, d):
    kind, v = L.outcome('to_numpy', L.new('DataShape', L.new('Fixed', 3), d))
    return (kind, v) if kind == 'raise' else (kind, L.i.as_list(v)[1])


def wrapped(L, d):
    return L.outcome(L.api('to_numpy_dtype', 'datashape.coretypes'),
                     L.new('DataShape', d))


ENTRIES = [('method', method), ('to_numpy_dtype', function),
           ('to_numpy', shaped), ('to_numpy_dtype of a datashape', wrapped)]


def bounds(p):
    if isinstance(p, Sym):
        if p.val is not Sym.UNSET:
            return p.val, p.val
        lo, hi = p.lo, p.hi
        while lo in p.neq:
            lo += 1
        while hi is not None and hi in p.neq:
            hi -= 1
        return lo, hi
    return p, p


def judge(L, lo, hi, kind, v):
    if kind == 'raise':
        L.check(L.exc_is(v, TypeError), 'precision %s to %s raises %s' % (
            lo, hi, L.exc_text(v)))
        L.check(lo > 18, 'a precision of %s is rejected' % lo)
        return
    v = L.i.res(v)
    if not isinstance(v, np.dtype):
        raise Violation('precision %s to %s gives %s' % (lo, hi, L.show(v)))
    ok = RANGES.get(v)
    if not ok:
        raise Violation('precision %s to %s gives %s' % (lo, hi, v))
    L.check(lo >= ok[0], 'a precision of %s gives %s, wider than needed' % (
        lo, v))
    L.check(hi is not None and hi <= ok[-1],
            'a precision of %s gives %s, which cannot hold its digits' % (
                'any size' if hi is None else hi, v))


def unknown(entry, how):
    def f(L):
        p = L.int('precision', 1)
        d = how_to(L, how, p, 0)
        kind, v = entry(L, d)
        lo, hi = bounds(p)
        judge(L, lo, hi, kind, v)
    return f


def how_to(L, how, p, s):
    if how == 'default':
        return L.new('Decimal', p)
    if how == 'keyword':
        return L.new('Decimal', precision=p, scale=s)
    return L.new('Decimal', p, s)


def known(p, entry, how):
    def f(L):
        judge(L, p, p, *entry(L, how_to(L, how, p, 0)))
    return f


def scaled(entry, sign, how, p):
    def f(L):
        s = L.int('scale', 1) if sign > 0 else L.int('scale', None, -1)
        d = how_to(L, how, L.int('precision', 1) if p is None else p, s)
        kind, v = entry(L, d)
        L.check(kind == 'ret', 'a scaled decimal raises %s' % (
            L.exc_text(v) if kind == 'raise' else ''))
        L.check(L.i.res(v) == np.dtype('float64'),
                'a scaled decimal gives %s' % L.show(v))
    return f


def cases(L, tier):
    for name, e in ENTRIES:
        for how in ('default', 'positional', 'keyword'):
            yield Case('unknown precision, %s, %s' % (how, name),
                       unknown(e, how))
            if how == 'default':
                continue
            for sign in (1, -1):
                yield Case('scale %+d, %s, %s' % (sign, how, name),
                           scaled(e, sign, how, None))
                for p in (2, 18, 19, 40):
                    yield Case('scale %+d of %d, %s, %s' % (
                        sign, p, how, name), scaled(e, sign, how, p))
        for p in list(range(1, 24)) + [40, 1000]:
            yield Case('precision %d, %s' % (p, name),
                       known(p, e, 'positional'))
