"""Models of the Python built-ins and of the libraries the package uses.

A model is a host function (interp, args, kwargs) -> abstract value.  Pure
library functions applied to constants are folded natively; anything else that
has no model yields an unknown value (top), which marks the partition as
imprecise as soon as a decision depends on it.
"""
import ast
import builtins as _b
import functools
import importlib
import operator
import re
import string as _string
import sys
import types
import collections

from .values import *
from . import rx

IMPORTABLE = frozenset('''
sys ctypes operator math numpy itertools re ast collections abc datetime
textwrap warnings dateutil types functools platform unittest string copy
copyreg keyword numbers typing decimal fractions bisect heapq unicodedata
enum contextlib time calendar token tokenize struct json mock inspect
dataclasses traceback builtins io
'''.split())

def escape_free(memo=[]):
    if not memo:
        memo.append(rx.from_regex(r'[ -\[\]-~]*'))
    return memo[0]


TYPE_MODELS = {}
FUNC_MODELS = {}


def models(table, *names):
    def deco(f):
        for n in names:
            table[n] = f
        return f
    return deco


def fn(*objs):
    def deco(f):
        for o in objs:
            FUNC_MODELS[id(o)] = (o, f)
        return f
    return deco


# ------------------------------------------------------------------ builtins

@fn(len)
def b_len(i, a, k):
    return i.len_(a[0])


@fn(isinstance)
def b_isinstance(i, a, k):
    return i.isinstance_(a[0], a[1])


@fn(issubclass)
def b_issubclass(i, a, k):
    c, d = i.res(a[0]), i.res(a[1])
    if isinstance(d, tuple):
        return any(b_issubclass(i, [c, x], k) for x in d)
    if isinstance(c, Sym):
        i.imprecise('issubclass of unknown')
        return i.choose(2, 'issubclass') == 0
    if not isinstance(c, (VClass, type)) and not (
            isinstance(c, VBuiltin) and c.pytype):
        i.throw(TypeError, 'issubclass() arg 1 must be a class')
    return i.issub(c, d)


@fn(getattr)
def b_getattr(i, a, k):
    name = i.res(a[1])
    if not isinstance(name, str):
        if isinstance(name, AbsVal) and i.type_of(name) is str:
            return i.top('getattr with unknown name')
        i.throw(TypeError, 'attribute name must be string')
    if len(a) > 2:
        return i.getattr_(a[0], name, a[2])
    return i.getattr_(a[0], name)


@fn(hasattr)
def b_hasattr(i, a, k):
    name = i.res(a[1])
    if isinstance(name, AbsVal):
        i.imprecise('hasattr with unknown name')
        return i.choose(2, 'hasattr') == 0
    o = i.res(a[0])
    if isinstance(o, Sym) and o.pytype is None:
        key = ('hasattr', name)
        if key not in o.preds:
            i.imprecise('hasattr of %s' % o.attrs.get('why', o.name))
            o.preds[key] = i.choose(2, 'hasattr') == 0
        return o.preds[key]
    return i.getattr_(o, name, MISSING_ATTR) is not MISSING_ATTR


MISSING_ATTR = VBuiltin('missing', None)


@fn(setattr)
def b_setattr(i, a, k):
    name = i.res(a[1])
    if isinstance(name, AbsVal):
        i.imprecise('setattr with unknown name')
        return None
    i.setattr_(a[0], name, a[2])


@fn(delattr)
def b_delattr(i, a, k):
    i.delattr_(a[0], i.res(a[1]))


@fn(callable)
def b_callable(i, a, k):
    v = i.res(a[0])
    if isinstance(v, VObj):
        return i.lookup_special(v, '__call__') is not None
    if isinstance(v, (VFunc, VClass, VBound, VBuiltin, VPartial,
                      VDispatcher)):
        return True
    if isinstance(v, AbsVal):
        return False
    return callable(v)


@fn(id)
def b_id(i, a, k):
    i.run.impure.append(('id', i.where(), i.fname()))
    return i.term('id', [a[0]], int)


@fn(hash)
def b_hash(i, a, k):
    return i.hash_(a[0])


@fn(print)
def b_print(i, a, k):
    return None


@fn(repr, ascii)
def b_repr(i, a, k):
    return i.repr_(a[0])


@fn(abs)
def b_abs(i, a, k):
    v = i.res(a[0])
    if i.lin(v) is not None:
        if i.int_cmp('<', v, 0):
            return i.binop('-', 0, v)
        return v
    if isinstance(v, VObj):
        return i.call(i.lookup_special(v, '__abs__'), [], {})
    return i.native(abs, a, k)


@fn(map)
def b_map(i, a, k):
    f = a[0]
    seqs = a[1:]

    def gen():
        its = [i.iterate(s) for s in seqs]
        while True:
            xs = []
            for it in its:
                try:
                    xs.append(next(it))
                except StopIteration:
                    return
            yield i.call(f, xs, {})
    check_iterable(i, seqs)
    return VIter(gen(), map)


def check_iterable(i, seqs):
    for s in seqs:
        s = i.res(s)
        if isinstance(s, (int, float)) or s is None or (
                isinstance(s, (VFunc, Lin)) or
                (isinstance(s, Sym) and s.pytype in (int, float, bool))):
            i.throw(TypeError, 'object is not iterable')


@fn(filter)
def b_filter(i, a, k):
    f, s = i.res(a[0]), a[1]

    def gen():
        for x in i.iterate(s):
            if i.truth(x if f is None else i.call(f, [x], {})):
                yield x
    return VIter(gen(), filter)


@fn(zip)
def b_zip(i, a, k):
    strict = i.truth(k.get('strict', False))

    def gen():
        its = [i.iterate(s) for s in a]
        if not its:
            return
        while True:
            xs = []
            for n, it in enumerate(its):
                try:
                    xs.append(next(it))
                except StopIteration:
                    if strict:
                        if n:
                            i.throw(ValueError, 'zip() argument is shorter')
                        for jt in its[1:]:
                            try:
                                next(jt)
                            except StopIteration:
                                continue
                            i.throw(ValueError, 'zip() argument is longer')
                    return
            yield tuple(xs)
    check_iterable(i, a)
    return VIter(gen(), zip)


@fn(enumerate)
def b_enumerate(i, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    check_iterable(i, a[:1])

    def gen():
        n = 0
        for x in i.iterate(a[0]):
            yield (i.binop('+', start, n), x)
            n += 1
    return VIter(gen(), enumerate)


@fn(all)
def b_all(i, a, k):
    for x in i.iterate(a[0]):
        if not i.truth(x):
            return False
    return True


@fn(any)
def b_any(i, a, k):
    for x in i.iterate(a[0]):
        if i.truth(x):
            return True
    return False


@fn(sum)
def b_sum(i, a, k):
    acc = a[1] if len(a) > 1 else k.get('start', 0)
    for x in i.iterate(a[0]):
        acc = i.binop('+', acc, x)
    return acc


def minmax(op):
    def f(i, a, k):
        key = i.res(k.get('key'))
        xs = i.as_list(a[0]) if len(a) == 1 else list(a)
        if not xs:
            if 'default' in k:
                return k['default']
            i.throw(ValueError, 'empty sequence')
        best = xs[0]
        kb = best if key is None else i.call(key, [best], {})
        for x in xs[1:]:
            kx = x if key is None else i.call(key, [x], {})
            if i.truth(i.rich(op, kx, kb)):
                best, kb = x, kx
        return best
    return f


fn(min)(minmax('<'))
fn(max)(minmax('>'))


def sort_list(i, xs, key, reverse):
    key = i.res(key)
    ks = [(x if key is None else i.call(key, [x], {}), x) for x in xs]
    out = []
    if reverse:
        ks.reverse()
    for p in ks:                        # stable insertion sort
        n = len(out)
        while n > 0 and i.truth(i.rich('<', p[0], out[n - 1][0])):
            n -= 1
        out.insert(n, p)
    if reverse:
        out.reverse()
    return [x for _, x in out]


@fn(sorted)
def b_sorted(i, a, k):
    return i.list(sort_list(i, i.as_list(a[0]), k.get('key'),
                            i.truth(k.get('reverse', False))))


@fn(reversed)
def b_reversed(i, a, k):
    v = i.res(a[0])
    if isinstance(v, VObj):
        f = i.lookup_special(v, '__reversed__')
        if f is not None:
            return i.call(f, [], {})
        n = i.res(i.len_(v))
        return VIter(iter([i.getitem(v, j) for j in range(n - 1, -1, -1)]),
                     reversed)
    return VIter(iter(i.as_list(v)[::-1]), reversed)


@fn(iter)
def b_iter(i, a, k):
    v = i.res(a[0])
    if len(a) == 2:
        def gen2():
            while True:
                x = i.call(v, [], {})
                if i.compare('==', x, a[1]):
                    return
                yield x
        return VIter(gen2())
    if isinstance(v, VIter):
        return v
    if isinstance(v, VObj):
        f = i.lookup_special(v, '__iter__')
        if f is not None:
            return i.call(f, [], {})
    check_iterable(i, [v])
    if isinstance(v, VClass):
        i.throw(TypeError, 'type is not iterable')
    return VIter(i.iterate(v))


@fn(next)
def b_next(i, a, k):
    v = i.res(a[0])
    if isinstance(v, VIter):
        x = i.iter_next(v)
    elif isinstance(v, VObj) and i.lookup_special(v, '__next__') is not None:
        try:
            return i.call(i.lookup_special(v, '__next__'), [], {})
        except Raised as e:
            if len(a) > 1 and i.exc_matches(e.exc, StopIteration):
                return a[1]
            raise
    elif isinstance(v, Sym) and v.pytype is None:
        return i.top('next of unknown')
    else:
        i.throw(TypeError, 'object is not an iterator')
    if x is MISSING:
        if len(a) > 1:
            return a[1]
        i.throw(StopIteration)
    return x


@fn(vars)
def b_vars(i, a, k):
    return i.getattr_(a[0], '__dict__')


@fn(dir)
def b_dir(i, a, k):
    v = i.res(a[0])
    names = []
    if isinstance(v, VModule):
        names = list(v.ns)
    elif isinstance(v, (VClass, VObj)):
        names = list(v.attrs) if isinstance(v, VObj) else []
        for c in mro_of(v.cls if isinstance(v, VObj) else v):
            names += list(c.ns if isinstance(c, VClass) else c.__dict__)
    return i.list(sorted(set(names)))


@fn(__import__)
def b_import(i, a, k):
    return i.import_(i.res(a[0]).split('.')[0])


@fn(importlib.import_module)
def b_import_module(i, a, k):
    return i.import_(i.res(a[0]))


@fn(divmod)
def b_divmod(i, a, k):
    return (i.binop('//', a[0], a[1]), i.binop('%', a[0], a[1]))


@fn(pow)
def b_pow(i, a, k):
    if len(a) == 2:
        return i.binop('**', a[0], a[1])
    return i.native(pow, a, k)


@fn(format)
def b_format(i, a, k):
    return i.format_(a[0], a[1] if len(a) > 1 else '')


# ----------------------------------------------------------- types as callables

@fn(object)
def t_object(i, a, k):
    return VObj(object, i.run.rid)


@fn(type)
def t_type(i, a, k):
    if len(a) == 1:
        t = i.type_of(a[0])
        if t is None:
            return i.top('type of unknown')
        return t
    return i.type_new(type, a, k)


_D = r'\d+(?:_\d+)*'
NUMBER = {n: rx.from_regex(r'\s*(?:%s)\s*' % p, re.IGNORECASE)
          for n, p in (
    # what the built-ins read
    ('int', '[+-]?' + _D),
    ('float', r'[+-]?(?:%s\.?(?:%s)?|\.%s)(?:e[+-]?%s)?|'
     r'[+-]?(?:inf|infinity|nan)' % (_D, _D, _D, _D)),
    ('infinite', '[+-]?(?:inf|infinity)'), ('nan', '[+-]?nan'),
    # values that are certainly integers, certainly not
    ('whole', r'[+-]?\d{1,15}(?:\.0*)?'),
    ('fraction', r'[+-]?\d{0,9}\.\d{0,5}[1-9]|[+-]?(?:inf|infinity|nan)'),
    # sizes
    ('short', r'[+-]?(?:\d{1,15}(?:\.\d*)?|\.\d+)'),
    ('long', r'\+?[1-9]\d{19,40}(?:\.\d*)?'),
    ('-long', r'-[1-9]\d{19,40}(?:\.\d*)?'))}


def reads(i, v, what):
    """Does the built-in read the unknown text?"""
    if v.lang is not None:
        return i.lang_decide(v, NUMBER[what], '%s(%s) parses' % (what, v.name))
    key = (what + '_ok',)
    if key not in v.preds:
        v.preds[key] = i.choose(2, '%s(%s) parses' % (what, v.name)) == 0
    return v.preds[key]


def text_bounds(i, t, v):
    """Bounds of the number a text denotes."""
    if v.lang is None or not isinstance(t, Sym) or 'sized' in v.preds:
        return t
    v.preds['sized'] = True
    if i.lang_certain(v, NUMBER['short']):
        t.lo, t.hi = -10 ** 15 + 1, 10 ** 15 - 1
    elif i.lang_certain(v, NUMBER['long'] | NUMBER['-long']):
        if i.lang_decide(v, NUMBER['long'], '%s is positive' % v.name):
            t.lo = 10 ** 19
        else:
            t.hi = -10 ** 19
    return t


@fn(int)
def t_int(i, a, k):
    if not a:
        return 0
    v = i.res(a[0])
    if len(a) > 1 or k:
        return i.native(int, a, k)
    if isinstance(v, Sym) and v.pytype is bool:
        return 1 if i.truth(v) else 0
    if i.lin(v) is not None:
        return v if isinstance(v, AbsVal) else int(v)
    if isinstance(v, VObj):
        if v.payload is not None and i.lookup_special(v, '__int__') is None:
            return t_int(i, [v.payload], {})
        for m in ('__int__', '__index__', '__trunc__'):
            f = i.lookup_special(v, m)
            if f is not None:
                r = i.res(i.call(f, [], {}))
                return r
        i.throw(TypeError, 'int() argument must be a string or a number')
    if isinstance(v, Sym):
        if v.pytype is float:
            r = rounding(i, v, None)
            if r is not None:
                return r
        if v.pytype is str:
            t = i.term('int', [v], int)
            if not reads(i, v, 'int'):
                i.throw(ValueError, 'invalid literal for int()')
            return text_bounds(i, t, v)
        if v.pytype is float:
            t = i.term('int', [v], int)
            if v.term and v.term[0] == 'float':
                x = i.res(v.term[1][0])
                if isinstance(x, Sym) and x.pytype is str:
                    if i.lang_decide(x, NUMBER['infinite'], 'infinite'):
                        i.throw(OverflowError,
                                'cannot convert float infinity to integer')
                    if i.lang_decide(x, NUMBER['nan'], 'nan'):
                        i.throw(ValueError,
                                'cannot convert float NaN to integer')
                    return text_bounds(i, t, x)
            return t
        if v.pytype is None:
            return i.top('int of unknown')
        i.throw(TypeError, 'int() argument must be a string or a number')
    if isinstance(v, Tmpl):
        if len(v.parts) == 1 and v.parts[0].fmt == 'd':
            return v.parts[0].val
        return i.top('int of text')
    if isinstance(v, AbsVal) or isinstance(v, tuple) or v is None:
        i.throw(TypeError, "int() argument must be a string, a bytes-like "
                "object or a real number, not '%s'" % cls_name(i.type_of(v)))
    return i.native(int, a, k)


@fn(float)
def t_float(i, a, k):
    if not a:
        return 0.0
    v = i.res(a[0])
    if isinstance(v, Sym) and v.pytype is float:
        return v
    if isinstance(v, VObj) and v.payload is None:
        f = i.lookup_special(v, '__float__')
        if f is not None:
            return i.call(f, [], {})
        i.throw(TypeError, 'float() argument must be a string or a number')
    if isinstance(v, (Lin,)) or isinstance(v, Sym) and v.pytype in (
            int, str, bool):
        if isinstance(v, Sym) and v.pytype is str:
            if not reads(i, v, 'float'):
                i.throw(ValueError, 'could not convert string to float')
        return i.term('float', [v], float)
    return i.native(float, a, k)


@fn(complex)
def t_complex(i, a, k):
    return i.native(complex, a, k)


@fn(bool)
def t_bool(i, a, k):
    return i.truth(a[0]) if a else False


@fn(bytes, bytearray)
def t_bytes(i, a, k):
    return i.native(bytes, a, k)


@fn(str)
def t_str(i, a, k):
    if not a:
        return ''
    if len(a) > 1 or k:
        return i.native(str, a, k)
    return i.str_(a[0])


@fn(list)
def t_list(i, a, k):
    return i.list(i.as_list(a[0]) if a else [])


@fn(tuple)
def t_tuple(i, a, k):
    return tuple(i.as_list(a[0])) if a else ()


@fn(set)
def t_set(i, a, k):
    return i.set(i.as_list(a[0]) if a else [])


@fn(frozenset)
def t_frozenset(i, a, k):
    return i.set(i.as_list(a[0]) if a else [], frozen=True)


def dict_model(pytype):
    def f(i, a, k):
        pairs = list(i.pairs(a[0])) if a else []
        if len(a) > 1:
            i.throw(TypeError, 'dict expected at most 1 argument')
        return i.dict(pairs + list(k.items()), pytype)
    return f


fn(dict)(dict_model(dict))
fn(collections.OrderedDict)(dict_model(collections.OrderedDict))


@fn(collections.defaultdict)
def t_defaultdict(i, a, k):
    d = i.dict(list(i.pairs(a[1])) if len(a) > 1 else [],
               collections.defaultdict)
    d.default = i.res(a[0]) if a else None
    return d


@fn(collections.Counter)
def t_counter(i, a, k):
    d = i.dict((), collections.Counter)
    d.default = VBuiltin('zero', lambda i, a, k: 0)
    if a:
        for x in i.iterate(a[0]):
            n = i.dict_get(d, x)
            i.dict_set(d, x, 1 if n is MISSING else i.binop('+', n, 1))
    return d


@fn(types.MappingProxyType)
def t_mappingproxy(i, a, k):
    v = i.res(a[0])
    if not isinstance(v, VDict):
        return i.top('mappingproxy')
    d = VDict(v.birth, types.MappingProxyType)
    d.d = v.d
    return d


@fn(collections.deque)
def t_deque(i, a, k):
    l = i.list(i.as_list(a[0]) if a else [])
    l.pytype = collections.deque
    return l


@fn(slice)
def t_slice(i, a, k):
    if len(a) == 1:
        return i.make_slice(None, a[0], None)
    if len(a) == 2:
        return i.make_slice(a[0], a[1], None)
    return i.make_slice(*a)


@fn(range)
def t_range(i, a, k):
    xs = [i.res(x) for x in a]
    xs = [i.index(x) for x in xs]
    if not any(isinstance(x, AbsVal) for x in xs):
        try:
            return range(*xs)
        except Exception as e:
            i.throw_native(e)
    if any(i.lin(x) is None for x in xs):
        return i.top('range')
    if len(xs) == 1:
        xs = [0] + xs
    if len(xs) == 2:
        xs.append(1)
    elif i.int_cmp('==', xs[2], 0):
        i.throw(ValueError, 'range() arg 3 must not be zero')
    o = VObj(range, i.run.rid)
    o.attrs.update(start=xs[0], stop=xs[1], step=xs[2])
    return o


@fn(super)
def t_super(i, a, k):
    return VSuper(a[0], a[1])


@fn(property)
def t_property(i, a, k):
    a = list(a) + [None] * (3 - len(a))
    return VDescr('property', i.res(k.get('fget', a[0])),
                  i.res(k.get('fset', a[1])), i.res(k.get('fdel', a[2])))


@fn(classmethod)
def t_classmethod(i, a, k):
    return VDescr('classmethod', a[0])


@fn(staticmethod)
def t_staticmethod(i, a, k):
    return VDescr('staticmethod', a[0])


@fn(functools.cached_property)
def t_cached_property(i, a, k):
    return VDescr('cached_property', a[0])


# ---------------------------------------------------------------- functools &c

@fn(functools.reduce)
def f_reduce(i, a, k):
    it = i.iterate(a[1])
    if len(a) > 2:
        acc = a[2]
    else:
        try:
            acc = next(it)
        except StopIteration:
            i.throw(TypeError, 'reduce() of empty iterable')
    for x in it:
        acc = i.call(a[0], [acc, x], {})
    return acc


@fn(functools.partial)
def f_partial(i, a, k):
    return VPartial(a[0], list(a[1:]), dict(k))


@fn(functools.wraps, functools.update_wrapper)
def f_wraps(i, a, k):
    return VBuiltin('wraps', lambda i, b, k: b[0])


@fn(functools.cmp_to_key)
def f_cmp_to_key(i, a, k):
    cls = i.cmpkey_class()
    f = a[0]

    def mk(i, b, k):
        o = VObj(cls, i.run.rid)
        o.attrs['obj'] = b[0]
        o.attrs['cmp'] = f
        return o
    return VBuiltin('cmp_to_key', mk)


@fn(functools.lru_cache)
def f_lru_cache(i, a, k):
    if a and isinstance(i.res(a[0]), (VFunc, VClass, VBuiltin)):
        return f_cached(i, a[0])
    return VBuiltin('lru_cache', lambda i, b, k: f_cached(i, b[0]))


if hasattr(functools, 'cache'):
    @fn(functools.cache)
    def f_cache(i, a, k):
        return f_cached(i, a[0])


def f_cached(i, f):
    store = VDict(i.run.rid)

    def call(i, a, k):
        key = tuple(a) + tuple(x for kv in sorted(k.items()) for x in kv)
        v = i.dict_get(store, key)
        if v is MISSING:
            v = i.call(f, a, k)
            saved = len(i.run.muts)
            i.dict_set(store, key, v)
            del i.run.muts[saved:]      # a cache is not observable
        return v
    return VBuiltin('cached', call)


import itertools
import math


@fn(itertools.chain)
def it_chain(i, a, k):
    def gen():
        for s in a:
            for x in i.iterate(s):
                yield x
    return VIter(gen(), itertools.chain)


@fn(itertools.chain.from_iterable)
def it_chain_from(i, a, k):
    def gen():
        for s in i.iterate(a[0]):
            for x in i.iterate(s):
                yield x
    return VIter(gen(), itertools.chain)


@fn(itertools.islice)
def it_islice(i, a, k):
    xs = [i.res(x) for x in a[1:]]
    if any(isinstance(x, AbsVal) for x in xs):
        return i.top('islice')
    s = slice(*xs) if len(xs) > 1 else slice(None, xs[0])
    start, stop, step = s.start or 0, s.stop, s.step or 1

    def gen():
        for n, x in enumerate(i.iterate(a[0])):
            if stop is not None and n >= stop:
                return
            if n >= start and (n - start) % step == 0:
                yield x
            if stop is not None and n + 1 >= stop:
                return
    return VIter(gen())


@fn(itertools.zip_longest)
def it_zip_longest(i, a, k):
    cols = [i.as_list(x) for x in a]
    fill = k.get('fillvalue')
    n = max([len(c) for c in cols] or [0])
    return VIter(iter([tuple(c[j] if j < len(c) else fill for c in cols)
                       for j in range(n)]))


@fn(itertools.product)
def it_product(i, a, k):
    rep = i.res(k.get('repeat', 1))
    return VIter(iter([tuple(t) for t in itertools.product(
        *[i.as_list(x) for x in a], repeat=rep)]))


@fn(itertools.combinations)
def it_combinations(i, a, k):
    return VIter(iter(list(itertools.combinations(i.as_list(a[0]),
                                                  i.res(a[1])))))


@fn(itertools.permutations)
def it_permutations(i, a, k):
    return VIter(iter(list(itertools.permutations(
        i.as_list(a[0]), *[i.res(x) for x in a[1:]]))))


@fn(itertools.repeat)
def it_repeat(i, a, k):
    if len(a) > 1:
        return VIter(iter([a[0]] * i.res(a[1])))

    def gen():
        while True:
            i.step()
            yield a[0]
    return VIter(gen())


@fn(itertools.count)
def it_count(i, a, k):
    def gen():
        n = i.res(a[0]) if a else i.res(k.get('start', 0))
        while True:
            i.step()
            yield n
            n = i.binop('+', n, a[1] if len(a) > 1 else k.get('step', 1))
    return VIter(gen())


@fn(itertools.starmap)
def it_starmap(i, a, k):
    def gen():
        for x in i.iterate(a[1]):
            yield i.call(a[0], i.as_list(x), {})
    return VIter(gen())


@fn(itertools.takewhile)
def it_takewhile(i, a, k):
    def gen():
        for x in i.iterate(a[1]):
            if not i.truth(i.call(a[0], [x], {})):
                return
            yield x
    return VIter(gen())


@fn(itertools.dropwhile)
def it_dropwhile(i, a, k):
    def gen():
        on = False
        for x in i.iterate(a[1]):
            if not on and i.truth(i.call(a[0], [x], {})):
                continue
            on = True
            yield x
    return VIter(gen())


@fn(itertools.filterfalse)
def it_filterfalse(i, a, k):
    def gen():
        for x in i.iterate(a[1]):
            if not i.truth(i.call(a[0], [x], {})):
                yield x
    return VIter(gen())


@fn(itertools.accumulate)
def it_accumulate(i, a, k):
    f = i.res(a[1]) if len(a) > 1 else i.res(k.get('func'))

    def gen():
        acc = MISSING
        for x in i.iterate(a[0]):
            if acc is MISSING:
                acc = x
            elif f is None:
                acc = i.binop('+', acc, x)
            else:
                acc = i.call(f, [acc, x], {})
            yield acc
    return VIter(gen())


@fn(itertools.groupby)
def it_groupby(i, a, k):
    key = i.res(a[1]) if len(a) > 1 else i.res(k.get('key'))
    groups = []
    for x in i.iterate(a[0]):
        kx = x if key is None else i.call(key, [x], {})
        if groups and i.compare('==', groups[-1][0], kx):
            groups[-1][1].append(x)
        else:
            groups.append((kx, [x]))
    return VIter(iter([(g, VIter(iter(xs))) for g, xs in groups]))


@fn(itertools.tee)
def it_tee(i, a, k):
    xs = i.as_list(a[0])
    n = i.res(a[1]) if len(a) > 1 else 2
    return tuple(VIter(iter(list(xs))) for _ in range(n))


# operator

def rounding(i, v, up):
    """Rounding of a quotient of integers, which is exact while the float
    is; None if it is not one."""
    v = i.res(v)
    if i.lin(v) is not None:
        return v
    if not (isinstance(v, Sym) and v.term and v.term[0] == '/'):
        return None
    x, y = v.term[1]
    ly = i.lin(y)
    if ly is None or i.lin(x) is None:
        return None
    neg = i.int_cmp('<', y, 0)
    if not (i.int_cmp('<', x, 2 ** 52) and i.int_cmp('>', x, -2 ** 52)):
        return None
    if up is None:
        up = i.int_cmp('<', x, 0) != neg
    if up:
        return i.binop('*', i.binop('//', i.binop('*', x, -1), y), -1)
    return i.binop('//', x, y)


def _round_model(f, up):
    @fn(f)
    def m(i, a, k):
        v = rounding(i, a[0], up)
        if v is not None:
            return v
        v = i.res(a[0])
        if not isinstance(v, AbsVal):
            try:
                return f(v)
            except Exception as e:
                i.throw_native(e)
        return i.top('rounding')


for _f, _up in ((math.ceil, True), (math.floor, False), (math.trunc, None)):
    _round_model(_f, _up)


@fn(operator.index)
def op_index(i, a, k):
    return i.index(a[0])


@fn(operator.methodcaller)
def op_methodcaller(i, a, k):
    name, rest = i.res(a[0]), list(a[1:])
    return VBuiltin('methodcaller', lambda i, b, k2: i.call(
        i.getattr_(b[0], name), rest, k))


@fn(operator.attrgetter)
def op_attrgetter(i, a, k):
    names = [i.res(x) for x in a]

    def get(i, o, name):
        for p in name.split('.'):
            o = i.getattr_(o, p)
        return o

    def f(i, b, k):
        rs = [get(i, b[0], n) for n in names]
        return rs[0] if len(rs) == 1 else tuple(rs)
    return VBuiltin('attrgetter', f)


@fn(operator.itemgetter)
def op_itemgetter(i, a, k):
    def f(i, b, k):
        rs = [i.getitem(b[0], x) for x in a]
        return rs[0] if len(rs) == 1 else tuple(rs)
    return VBuiltin('itemgetter', f)


for _n, _o in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='),
               ('gt', '>'), ('ge', '>=')):
    fn(getattr(operator, _n))(lambda i, a, k, o=_o: i.rich(o, a[0], a[1]))
for _n, _o in (('add', '+'), ('sub', '-'), ('mul', '*'), ('mod', '%'),
               ('or_', '|'), ('and_', '&'), ('xor', '^'), ('concat', '+'),
               ('truediv', '/'), ('floordiv', '//'), ('pow', '**')):
    fn(getattr(operator, _n))(lambda i, a, k, o=_o: i.binop(o, a[0], a[1]))
for _n, _o in (('iadd', '+'), ('ior', '|'), ('iand', '&'), ('imul', '*')):
    fn(getattr(operator, _n))(lambda i, a, k, o=_o: i.inplace(o, a[0], a[1]))
fn(operator.getitem)(lambda i, a, k: i.getitem(a[0], a[1]))
fn(operator.contains)(lambda i, a, k: i.contains(a[0], a[1]))
fn(operator.not_)(lambda i, a, k: not i.truth(a[0]))
fn(operator.truth)(lambda i, a, k: i.truth(a[0]))
fn(operator.is_)(lambda i, a, k: i.is_(a[0], a[1]))
fn(operator.is_not)(lambda i, a, k: not i.is_(a[0], a[1]))


@fn(operator.length_hint)
def op_length_hint(i, a, k):
    return i.len_(a[0])


@fn(collections.namedtuple)
def c_namedtuple(i, a, k):
    name, fields = i.res(a[0]), i.res(a[1])
    if isinstance(fields, str):
        fields = fields.replace(',', ' ').split()
    else:
        fields = [i.res(x) for x in i.as_list(fields)]
    ns = {}
    for n, f in enumerate(fields):
        ns[f] = VDescr('itemgetter', n)
    defaults = [i.res(x) for x in i.as_list(k.get('defaults') or ())]

    def new(i, b, kw):
        c, vals = b[0], list(b[1:])
        kw = dict(kw)
        if len(vals) > len(fields):
            i.throw(TypeError, 'too many arguments for %s' % name)
        for n in range(len(vals), len(fields)):
            f = fields[n]
            if f in kw:
                vals.append(kw.pop(f))
            elif n >= len(fields) - len(defaults):
                vals.append(defaults[n - len(fields) + len(defaults)])
            else:
                i.throw(TypeError, 'missing argument %s' % f)
        if kw:
            i.throw(TypeError, 'unexpected keyword argument')
        o = VObj(c, i.run.rid)
        o.payload = tuple(vals)
        return o

    def rep(i, b, kw):
        parts = [cls_name(b[0].cls), '(']
        for n, f in enumerate(fields):
            parts += [', ' if n else '', f + '=', i.repr_(b[0].payload[n])]
        return i.text(parts + [')'])

    def replace(i, b, kw):
        vals = list(b[0].payload)
        for f, v in kw.items():
            vals[fields.index(f)] = v
        return new(i, [b[0].cls] + vals, {})
    ns['__new__'] = VDescr('staticmethod', VBuiltin('__new__', new))
    ns['__repr__'] = VBuiltin('__repr__', rep)
    ns['_replace'] = VBuiltin('_replace', replace)
    ns['_fields'] = tuple(fields)
    ns['_make'] = VDescr('classmethod', VBuiltin('_make', lambda i, b, kw: new(
        i, [b[0]] + i.as_list(b[1]), {})))
    ns['_asdict'] = VBuiltin('_asdict', lambda i, b, kw: i.dict(
        zip(fields, b[0].payload)))
    ns['__slots__'] = ()
    return VClass(name, [tuple], ns, type, None, i.run.rid)


import warnings


@fn(warnings.warn)
def w_warn(i, a, k):
    i.run.warned.append(i.where())
    return None


@fn(sys.exc_info)
def s_exc_info(i, a, k):
    e = i._handling
    return (None, None, None) if e is None else (e.cls, e, None)


import copy as _copy


@fn(_copy.copy, _copy.deepcopy)
def c_copy(i, a, k):
    return i.top('copy')


import numpy as np


class Term(object):
    """Marker of dtype symbols: see Library.np_dtype."""


@fn(np.dtype)
def np_dtype(i, a, k):
    return i.np_dtype(a, k)


@fn(np.issubdtype)
def np_issubdtype(i, a, k):
    x, y = i.res(a[0]), i.res(a[1])
    if isinstance(x, Sym) and x.pytype is np.dtype and 'like' in x.attrs:
        x = x.attrs['like']
    if isinstance(x, VClass) or isinstance(y, VClass):
        # np.dtype(arbitrary class) is object
        x = np.object_ if isinstance(x, VClass) else x
        y = np.object_ if isinstance(y, VClass) else y
    return i.native(np.issubdtype, [x, y], k)


@fn(np.datetime_data)
def np_datetime_data(i, a, k):
    return i.native(np.datetime_data, a, k)


# ------------------------------------------------------------------ patterns

def pat_sub(i, pat, repl, s, count=0):
    """pattern.sub with a replacement that is analysed code"""
    out, pos = [], 0
    for n, m in enumerate(pat.finditer(s)):
        if count and n >= count:
            break
        out.append(s[pos:m.start()])
        out.append(i.res(i.call(repl, [m], {})))
        pos = m.end()
    out.append(s[pos:])
    if any(isinstance(x, AbsVal) for x in out):
        return i.top('text of a replacement')
    if not all(type(x) is type(s) for x in out):
        i.throw(TypeError, 'sequence item: expected str instance')
    return s[:0].join(out)


SAFE = rx.from_regex(r"""[ -&(-\[\]-~]*""")
REPR = rx.from_regex(r"""(?s:'.*'|".*")""")
DIGITS = rx.from_regex(r'0|-?[1-9][0-9]*')


def text_lang(i, s):
    """A regular language that holds every value of an abstract text."""
    if isinstance(s, Sym):
        return s.lang if s.lang is not None else rx.ANY
    out = rx.EMPTY_TEXT
    for p in s.parts:
        if isinstance(p, str):
            try:
                l = rx.literal(p)
            except Exception:
                l = rx.ANY
        elif p.fmt == 'd':
            l = DIGITS
        elif p.fmt == 's' and isinstance(p.val, Sym) and \
                p.val.lang is not None:
            l = p.val.lang
        elif p.fmt == 'r' and i.type_of(p.val) is str:
            l = REPR
            v = p.val
            if isinstance(v, Sym) and v.lang is not None and \
                    v.lang.subset(SAFE):
                q = rx.literal("'")
                l = rx.concat(rx.concat(q, v.lang), q)
        else:
            l = rx.ANY
        out = rx.concat(out, l)
    return out


def captures(f):
    """Does the function use variables of a function around it?"""
    names = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)}
    e = f.env
    while e is not None:
        if e.func is not None and names & set(e.local):
            return True
        e = e.parent
    return False


def sub_abs(i, pat, repl, s, count=0):
    """re.sub on an abstract text: the text where nothing can be replaced,
    else an uninterpreted function of it."""
    repl, s, count = i.res(repl), i.res(s), i.res(count)
    if isinstance(count, AbsVal) or i.type_of(s) is not str:
        return i.top('re.sub')
    if isinstance(s, (Sym, Tmpl)):
        sp = text_lang(i, s).split_regex(pat, 'search')
        if sp is not None and sp[0].empty():
            return s
    if isinstance(repl, VFunc) and not captures(repl):
        by = ('code', id(repl.node))
    elif isinstance(repl, str):
        by = repl
    else:
        return i.top('re.sub')
    return i.term('sub', [pat.pattern, pat.flags, by, count, s], str)


def pat_method(name):
    def f(i, a, k):
        pat, s = i.res(a[0]), i.res(a[1])
        if name == 'sub' and isinstance(s, (VFunc, VBound, VPartial,
                                            VBuiltin)):
            t = i.res(a[2]) if len(a) > 2 else i.res(k.get('string'))
            c = i.res(a[3]) if len(a) > 3 else i.res(k.get('count', 0))
            if isinstance(t, AbsVal) or isinstance(c, AbsVal):
                return sub_abs(i, pat, s, t, c)
            return pat_sub(i, pat, s, t, c)
        if i.re_trace is not None and len(a) < 4:
            r = pat_plain(i, name, pat, s, a, k)
            i.re_trace.append((pat, name, s, [i.res(x) for x in a[2:]], r))
            return r
        return pat_plain(i, name, pat, s, a, k)
    return f


def pat_plain(i, name, pat, s, a, k):
    return _pat_method(name)(i, [pat, s] + list(a[2:]), k)


def _pat_method(name):
    def f(i, a, k):
        pat, s = i.res(a[0]), i.res(a[1])
        rest = [i.res(x) for x in a[2:]]
        if isinstance(s, VObj) and s.payload is not None:
            s = i.res(s.payload)
        if not isinstance(s, AbsVal) and not any(isinstance(x, AbsVal)
                                                 for x in rest):
            return i.native(getattr(pat, name), [s] + rest, k)
        return i.re_abs(name, pat, s, rest)
    return f


def split_abs(i, pat, s, more):
    """re.split of an unknown text at runs of characters."""
    if isinstance(pat, str):
        try:
            pat = re.compile(pat)
        except Exception as e:
            i.throw_native(e)
    gap = rx.run_of(pat)
    if more or gap is None or not isinstance(s, Sym) or s.pytype is not str:
        return i.top('re.split')
    out = i.words(s, gap, False)
    return i.top('re.split') if out is None else i.list(out)


def re_func(name):
    def f(i, a, k):
        p = i.res(a[0])
        flags = 0
        rest = list(a[2:])
        n = {'sub': 1}.get(name, 0)
        if name == 'sub':
            if not any(isinstance(i.res(x), AbsVal) for x in a):
                return i.native(re.sub, a, k)
            if isinstance(i.res(a[1]), (VFunc, VBound, VPartial, VBuiltin)) \
                    and len(a) == 3 and not k and not isinstance(
                        p, AbsVal) and not isinstance(i.res(a[2]), AbsVal):
                return pat_sub(i, re.compile(p) if not isinstance(
                    p, re.Pattern) else p, i.res(a[1]), i.res(a[2]))
            if len(a) == 3 and not k and not isinstance(p, AbsVal):
                return sub_abs(i, re.compile(p) if not isinstance(
                    p, re.Pattern) else p, a[1], a[2])
            return i.top('re.sub')
        if rest:
            flags = i.res(rest[0])
        if 'flags' in k:
            flags = i.res(k['flags'])
        if isinstance(p, AbsVal):
            return i.top('unknown pattern')
        if name == 'split':
            if isinstance(i.res(a[1]), AbsVal):
                return split_abs(i, p, i.res(a[1]), len(a) > 2 or k)
            return i.native(re.split, a, k)
        if not isinstance(p, re.Pattern):
            try:
                p = re.compile(p, flags)
            except Exception as e:
                i.throw_native(e)
        return pat_method(name)(i, [p, a[1]], {})
    return f


for _n in ('match', 'search', 'fullmatch', 'findall', 'finditer', 'split',
           'sub'):
    fn(getattr(re, _n))(re_func(_n))


# ---------------------------------------------------------------- dates

import datetime as _dt
import _strptime


@fn(_dt.datetime.strptime)
def dt_strptime(i, a, k):
    s, fmt = i.res(a[0]), i.res(a[1])
    if not isinstance(s, AbsVal) and not isinstance(fmt, AbsVal):
        return i.native(_dt.datetime.strptime, a, k)
    if not (isinstance(s, Sym) and s.pytype is str and isinstance(fmt, str)):
        return i.top('strptime')
    try:
        pat = _strptime.TimeRE().compile(fmt)
        # seconds above 59 match but are no time
        l = rx.from_regex(pat.pattern.replace('6[0-1]|', ''), re.IGNORECASE)
    except Exception:
        return i.top('strptime')
    if '%S' in fmt and '6[0-1]|' not in pat.pattern:
        return i.top('strptime')
    if s.lang is None and 'pre' not in s.attrs:
        s.lang = rx.ANY
    if not i.lang_decide(s, l, 'strptime(%s, %r)' % (s.name, fmt)):
        i.throw(ValueError, 'time data does not match format')
    return i.term('strptime', [s, fmt], _dt.datetime)


# what dateutil may read; only what is zero matters to the analysed code
READINGS = [_dt.datetime(2000, 1, 2), _dt.datetime(2000, 1, 2, 3),
            _dt.datetime(2000, 1, 2, 0, 4), _dt.datetime(2000, 1, 2, 0, 0, 5),
            _dt.datetime(2000, 1, 2, 0, 0, 0, 6),
            _dt.datetime(2000, 1, 2, 3, 4, 5, 6, _dt.timezone.utc),
            _dt.datetime(2000, 1, 2, tzinfo=_dt.timezone.utc)]


def dateutil_parse(i, a, k):
    s = i.res(a[0])
    if not isinstance(s, AbsVal):
        return i.native(_dateparse, a, k)
    if len(a) > 1 or k or not (isinstance(s, Sym) and s.pytype is str):
        return i.top('dateutil.parse')
    return dateutil_reading(i, s)


def dateutil_reading(i, s):
    if 'dateutil' not in s.preds:
        s.preds['dateutil'] = i.choose(
            len(READINGS) + 2, 'dateutil reads %s as' % s.name)
    n = s.preds['dateutil']
    if n == len(READINGS):
        i.throw(ValueError, 'unknown string format')
    if n > len(READINGS):
        i.throw(OverflowError, 'int too large')
    return READINGS[n]


try:
    from dateutil.parser import parse as _dateparse
    fn(_dateparse)(dateutil_parse)
except ImportError:
    pass


@fn(np.timedelta64)
def np_timedelta64(i, a, k):
    n = i.res(a[0]) if a else None
    rest = [i.res(x) for x in a[1:]]
    if i.lin(n) is None or not isinstance(n, AbsVal) or k or any(
            isinstance(x, AbsVal) for x in rest):
        return i.native(np.timedelta64, a, k)
    if not (i.int_cmp('<', n, 2 ** 63) and i.int_cmp('>=', n, -2 ** 63)):
        i.throw(OverflowError, 'int too big to convert')
    return i.native(np.timedelta64, [7] + rest, {})


# ------------------------------------------------------------------- methods

LIST_M, DICT_M, SET_M, STR_M = {}, {}, {}, {}


@models(LIST_M, 'append')
def l_append(i, l, a, k):
    i.list_extend(l, [a[0]])


@models(LIST_M, 'extend')
def l_extend(i, l, a, k):
    i.list_extend(l, i.as_list(a[0]))


@models(LIST_M, 'insert')
def l_insert(i, l, a, k):
    xs = list(l.items)
    n = i.res(a[0])
    if isinstance(n, AbsVal):
        raise Budget('insert at unknown index')
    xs.insert(n, a[1])
    i.list_replace(l, xs)


@models(LIST_M, 'appendleft')
def l_appendleft(i, l, a, k):
    i.list_replace(l, [a[0]] + l.items)


@models(LIST_M, 'popleft')
def l_popleft(i, l, a, k):
    return l_pop(i, l, [0], k)


@models(LIST_M, 'pop')
def l_pop(i, l, a, k):
    n = i.res(a[0]) if a else -1
    xs = list(l.items)
    try:
        x = xs.pop(n)
    except IndexError:
        i.throw(IndexError, 'pop from empty list')
    i.list_replace(l, xs)
    return x


@models(LIST_M, 'remove')
def l_remove(i, l, a, k):
    for n, x in enumerate(l.items):
        if i.res(x) is i.res(a[0]) or i.compare('==', x, a[0]):
            i.list_replace(l, l.items[:n] + l.items[n + 1:])
            return
    i.throw(ValueError, 'list.remove(x): x not in list')


@models(LIST_M, 'index')
def l_index(i, l, a, k):
    xs = l.items if isinstance(l, VList) else l
    for n, x in enumerate(xs):
        if i.res(x) is i.res(a[0]) or i.compare('==', x, a[0]):
            return n
    i.throw(ValueError, '%s is not in list' % i.show(a[0]))


@models(LIST_M, 'count')
def l_count(i, l, a, k):
    xs = l.items if isinstance(l, VList) else l
    return sum(1 for x in xs if i.res(x) is i.res(a[0]) or
               i.compare('==', x, a[0]))


@models(LIST_M, 'sort')
def l_sort(i, l, a, k):
    i.list_replace(l, sort_list(i, l.items, k.get('key'),
                                i.truth(k.get('reverse', False))))


@models(LIST_M, 'reverse')
def l_reverse(i, l, a, k):
    i.list_replace(l, l.items[::-1])


@models(LIST_M, 'copy', '__copy__')
def l_copy(i, l, a, k):
    return i.list(l.items)


@models(LIST_M, 'clear')
def l_clear(i, l, a, k):
    i.list_replace(l, [])


@models(LIST_M, '__contains__')
def l_contains(i, l, a, k):
    return i.contains(l, a[0])


@models(LIST_M, '__getitem__')
@models(DICT_M, '__getitem__')
def x_getitem(i, l, a, k):
    return i.getitem(l, a[0])


@models(LIST_M, '__setitem__')
@models(DICT_M, '__setitem__')
def x_setitem(i, l, a, k):
    return i.setitem(l, a[0], a[1])


@models(LIST_M, '__delitem__')
@models(DICT_M, '__delitem__')
def x_delitem(i, l, a, k):
    return i.delitem(l, a[0])


@models(LIST_M, '__len__')
@models(DICT_M, '__len__')
@models(SET_M, '__len__')
def x_len(i, l, a, k):
    return i.len_(l)


@models(LIST_M, '__iter__')
@models(DICT_M, '__iter__')
@models(SET_M, '__iter__')
def x_iter(i, l, a, k):
    return VIter(i.iterate(l))


@models(LIST_M, '__eq__')
@models(DICT_M, '__eq__')
@models(SET_M, '__eq__')
def x_eq(i, l, a, k):
    return i.eq_builtin(l, i.res(a[0]))


@models(DICT_M, 'get')
def d_get(i, d, a, k):
    v = i.dict_get(d, a[0])
    if v is MISSING:
        return a[1] if len(a) > 1 else None
    return v


@models(DICT_M, 'keys', 'iterkeys')
def d_keys(i, d, a, k):
    return VView(d, 'keys')


@models(DICT_M, 'values')
def d_values(i, d, a, k):
    return VView(d, 'values')


@models(DICT_M, 'items')
def d_items(i, d, a, k):
    return VView(d, 'items')


def d_guard(i, d):
    if d.pytype is types.MappingProxyType:
        i.throw(AttributeError, 'mappingproxy')


@models(DICT_M, 'update')
def d_update(i, d, a, k):
    d_guard(i, d)
    if a:
        for x, y in i.pairs(a[0]):
            i.dict_set(d, x, y)
    for x, y in k.items():
        i.dict_set(d, x, y)


@models(DICT_M, 'setdefault')
def d_setdefault(i, d, a, k):
    d_guard(i, d)
    v = i.dict_get(d, a[0])
    if v is MISSING:
        v = a[1] if len(a) > 1 else None
        i.dict_set(d, a[0], v)
    return v


@models(DICT_M, 'pop')
def d_pop(i, d, a, k):
    d_guard(i, d)
    if i.dict_get(d, a[0]) is MISSING:
        if len(a) > 1:
            return a[1]
        i.throw(KeyError, a[0])
    return i.dict_del(d, a[0])


@models(DICT_M, 'popitem')
def d_popitem(i, d, a, k):
    d_guard(i, d)
    if not d.d:
        i.throw(KeyError, 'dictionary is empty')
    key = list(d.d.values())[-1][0]
    return (key, i.dict_del(d, key))


@models(DICT_M, 'clear')
def d_clear(i, d, a, k):
    d_guard(i, d)
    for x in [x for x, _ in d.d.values()]:
        i.dict_del(d, x)


@models(DICT_M, 'copy', '__copy__')
def d_copy(i, d, a, k):
    r = i.dict(list(d.d.values()), d.pytype)
    r.default = d.default
    return r


@models(DICT_M, '__contains__', 'has_key')
def d_contains(i, d, a, k):
    return i.contains(d, a[0])


@models(DICT_M, 'move_to_end')
def d_move_to_end(i, d, a, k):
    v = i.dict_del(d, a[0])
    i.dict_set(d, a[0], v)


@models(DICT_M, 'most_common')
def d_most_common(i, d, a, k):
    return i.list(sort_list(i, list(d.d.values()), VBuiltin(
        'snd', lambda i, a, k: a[0][1]), True))


def s_guard(i, s):
    if s.frozen:
        i.throw(AttributeError, 'frozenset is immutable')


@models(SET_M, 'add')
def s_add(i, s, a, k):
    s_guard(i, s)
    i.set_add(s, a[0])


@models(SET_M, 'discard')
def s_discard(i, s, a, k):
    s_guard(i, s)
    i.set_del(s, a[0])


@models(SET_M, 'remove')
def s_remove(i, s, a, k):
    s_guard(i, s)
    if not i.set_del(s, a[0]):
        i.throw(KeyError, a[0])


@models(SET_M, 'pop')
def s_pop(i, s, a, k):
    s_guard(i, s)
    if not s.d:
        i.throw(KeyError, 'pop from an empty set')
    x = i.set_order(s)[0]
    i.set_del(s, x)
    return x


@models(SET_M, 'clear')
def s_clear(i, s, a, k):
    s_guard(i, s)
    for x in list(s.d.values()):
        i.set_del(s, x)


@models(SET_M, 'copy')
def s_copy(i, s, a, k):
    return i.set(i.set_order(s), s.frozen)


@models(SET_M, 'update')
def s_update(i, s, a, k):
    s_guard(i, s)
    for x in a:
        for y in i.as_list(x):
            i.set_add(s, y)


def s_binary(op):
    def f(i, s, a, k):
        r = i.set(i.set_order(s), s.frozen)
        for x in a:
            x = i.res(x)
            if not isinstance(x, VSet):
                x = i.set(i.as_list(x))
            r = i.set_op(op, r, x, s.frozen)
        return r
    return f


for _n, _o in (('union', '|'), ('intersection', '&'), ('difference', '-'),
               ('symmetric_difference', '^')):
    SET_M[_n] = s_binary(_o)


def s_inplace(op):
    def f(i, s, a, k):
        s_guard(i, s)
        for x in a:
            x = i.res(x)
            if not isinstance(x, VSet):
                x = i.set(i.as_list(x))
            i.inplace(op, s, x)
    return f


SET_M['intersection_update'] = s_inplace('&')
SET_M['difference_update'] = s_inplace('-')
SET_M['symmetric_difference_update'] = s_inplace('^')


@models(SET_M, 'issubset')
def s_issubset(i, s, a, k):
    o = i.as_list(a[0])
    return all(any(i.key_equal(x, y) for y in o) for x in s.d.values())


@models(SET_M, 'issuperset')
def s_issuperset(i, s, a, k):
    return all(i.set_has(s, x) for x in i.as_list(a[0]))


@models(SET_M, 'isdisjoint')
def s_isdisjoint(i, s, a, k):
    return not any(i.set_has(s, x) for x in i.as_list(a[0]))


@models(SET_M, '__contains__')
def s_contains(i, s, a, k):
    return i.contains(s, a[0])


# strings

@models(STR_M, 'join')
def st_join(i, s, a, k):
    parts = []
    for n, x in enumerate(i.iterate(a[0])):
        x = i.res(x)
        t = i.type_of(x)
        if t is None:
            return i.top('join of unknown')
        if not i.issub(t, str):
            i.throw(TypeError, 'sequence item %d: expected str instance, %s '
                    'found' % (n, cls_name(t)))
        if n:
            parts.append(s)
        parts.append(x)
    return i.text(parts)


@models(STR_M, 'format')
def st_format(i, s, a, k):
    if not isinstance(s, str):
        return i.top('format of unknown text')
    parts, auto = [], 0
    try:
        pieces = list(_string.Formatter().parse(s))
    except ValueError as e:
        i.throw(ValueError, str(e))
    for lit, field, spec, conv in pieces:
        parts.append(lit)
        if field is None:
            continue
        m = re.match(r'[^.\[]*', field)
        first, rest = m.group(), field[m.end():]
        if first == '':
            first = str(auto)
            auto += 1
        if first.isdigit():
            if int(first) >= len(a):
                i.throw(IndexError, 'Replacement index out of range')
            v = a[int(first)]
        else:
            if first not in k:
                i.throw(KeyError, first)
            v = k[first]
        for m in re.finditer(r'\.([^.\[]+)|\[([^\]]+)\]', rest):
            if m.group(1):
                v = i.getattr_(v, m.group(1))
            else:
                g = m.group(2)
                v = i.getitem(v, int(g) if g.isdigit() else g)
        if conv == 'r' or conv == 'a':
            v = i.repr_(v)
        elif conv == 's':
            v = i.str_(v)
        if '{' in (spec or ''):
            spec = st_format(i, spec, a, k)
        parts.append(i.format_(v, spec or ''))
    return i.text(parts)


@models(STR_M, 'format_map')
def st_format_map(i, s, a, k):
    return st_format(i, s, [], {x: y for x, y in i.pairs(a[0])})


STR_BOOL = ('startswith', 'endswith', 'isalpha', 'isdigit', 'isspace',
            'isupper', 'islower', 'isalnum', 'isidentifier', 'isnumeric',
            'isdecimal', 'isprintable', 'istitle', 'isascii')


def str_pred(name):
    def f(i, s, a, k):
        args = []
        for x in a:
            x = i.res(x)
            if isinstance(x, AbsVal) or (isinstance(x, tuple) and
                                         i.has_abs(x)):
                return i.truth(i.term(name, [s] + list(a), bool))
            args.append(x)
        return i.str_predicate(s, name, tuple(args))
    return f


for _n in STR_BOOL:
    STR_M[_n] = str_pred(_n)


@models(STR_M, 'encode')
def st_encode(i, s, a, k):
    return i.term('encode', [s] + list(a), bytes)


@models(STR_M, '__contains__')
def st_contains(i, s, a, k):
    return i.contains(s, a[0])


@models(STR_M, '__len__')
def st_len(i, s, a, k):
    return i.len_(s)


@models(STR_M, '__eq__')
def st_eq(i, s, a, k):
    return i.eq_builtin(s, i.res(a[0]))


@models(STR_M, '__hash__')
def st_hash(i, s, a, k):
    return i.hash_(s)


@models(STR_M, '__str__')
def st_str(i, s, a, k):
    return s


@models(STR_M, '__repr__')
def st_repr(i, s, a, k):
    return i.repr_(s)


@models(STR_M, '__getitem__')
def st_getitem(i, s, a, k):
    return i.getitem(s, a[0])


@models(STR_M, '__add__')
def st_add(i, s, a, k):
    return i.binop('+', s, a[0])


@models(STR_M, '__mod__')
def st_mod(i, s, a, k):
    return i.percent(s, a[0])


@models(STR_M, 'replace')
def st_replace(i, s, a, k):
    old, new = i.res(a[0]), i.res(a[1])
    if isinstance(s, Tmpl) and isinstance(old, str) and len(old) == 1:
        parts = []
        for p in s.parts:
            if isinstance(p, str):
                bits = p.split(old)
                for n, b in enumerate(bits):
                    if n:
                        parts.append(new)
                    parts.append(b)
            else:
                if i.hole_may_contain(p, old):
                    p = Hole(i.term('replace', [i.hole_text(p), old, new],
                                    str), 's')
                parts.append(p)
        return i.text(parts)
    if isinstance(s, Sym) and isinstance(old, str):
        if not i.str_has(s, old):
            return s
        if len(old) == 1 and isinstance(new, str) and len(a) == 2:
            return i.derive(s, 'replace', [old, new])
    return i.term('replace', [s] + list(a), str)


def st_strip(name):
    def f(i, s, a, k):
        # strip of a template whose ends are constants
        chars = i.res(a[0]) if a else None
        if isinstance(s, Tmpl) and not isinstance(chars, AbsVal):
            parts = list(s.parts)
            ok = True
            if name != 'rstrip':
                if isinstance(parts[0], str):
                    t = parts[0].lstrip(chars)
                    if not t:
                        ok = False
                    parts[0] = t
                elif parts[0].fmt != 'd':
                    ok = False
            if name != 'lstrip':
                if isinstance(parts[-1], str):
                    t = parts[-1].rstrip(chars)
                    if not t:
                        ok = False
                    parts[-1] = t
                elif parts[-1].fmt != 'd':
                    ok = False
            # the edges of a repr are quotes
            e = [p for p in (s.parts[0], s.parts[-1])
                 if isinstance(p, Hole) and p.fmt == 'r' and
                 i.type_of(p.val) is str]
            if e and (chars is None or not set(chars) & set('\'"')):
                ok = ok or all(isinstance(p, (str,)) or p in e
                               for p in (parts[0], parts[-1]))
            if ok:
                return i.text(parts)
        if isinstance(s, Sym) and s.lang is not None and not isinstance(
                chars, AbsVal):
            if not s.lang.edge_chars(chars):
                return s
        if isinstance(s, Sym) and not isinstance(chars, AbsVal):
            return i.derive(s, name, [chars])
        return i.term(name, [s] + list(a), str)
    return f


for _n in ('strip', 'lstrip', 'rstrip'):
    STR_M[_n] = st_strip(_n)


def st_fold(name):
    def f(i, s, a, k):
        if isinstance(s, Sym):
            return i.derive(s, name, [])
        return i.term(name, [s] + list(a), str)
    return f


for _n in ('lower', 'upper', 'casefold', 'swapcase'):
    STR_M[_n] = st_fold(_n)


def st_affix(name):
    def f(i, s, a, k):
        x = i.res(a[0])
        if isinstance(s, Sym) and isinstance(x, str):
            if i.str_predicate(s, 'startswith' if name == 'removeprefix'
                               else 'endswith', (x,)):
                return i.str_getitem(s, slice(len(x), None)
                                     if name == 'removeprefix' else
                                     slice(None, -len(x)) if x else
                                     slice(None, None))
            return s
        return i.term(name, [s] + list(a), str)
    return f


for _n in ('removeprefix', 'removesuffix'):
    STR_M[_n] = st_affix(_n)


# ---------------------------------------------------------------- the library

class Library(object):
    """Mixin of Interp."""

    def install(self):
        self.importable = IMPORTABLE
        self.models = dict(FUNC_MODELS)
        self.class_methods = [
            (g, m) for g, m in FUNC_MODELS.values()
            if isinstance(g, types.BuiltinMethodType) and
            isinstance(g.__self__, type)]
        self.raw_attr_models = {}
        self.object_models = {}
        self.languages = {}
        self.payload_types = frozenset([
            dict, list, set, frozenset, tuple, str, int, float, bytes,
            collections.OrderedDict, collections.defaultdict])
        bi = {}
        for n in dir(_b):
            if n.startswith('_') and n not in ('__import__', '__build_class__',
                                               '__debug__'):
                continue
            bi[n] = getattr(_b, n)
        self.builtins = bi
        self.install_object()
        self.lib_modules = {'multipledispatch': self.md_module()}
        self.cmpkey = None

    def install_object(self):
        om = self.object_models

        def b(name, f):
            om[(object, name)] = VBuiltin('object.' + name, f)

        b('__init__', lambda i, a, k: None)
        om[(object, '__new__')] = VDescr('staticmethod', VBuiltin(
            'object.__new__', lambda i, a, k: i.new_object(a[0], a[1:], k)))
        b('__eq__', lambda i, a, k: True if i.res(a[0]) is i.res(a[1])
          else NotImplemented)
        b('__ne__', lambda i, a, k: self.obj_ne(a))
        b('__hash__', lambda i, a, k: HashTerm('id', (i.res(a[0]),)))
        b('__setattr__', lambda i, a, k: i.object_setattr(
            i.res(a[0]), i.res(a[1]), a[2]))
        b('__delattr__', lambda i, a, k: i.delattr_(a[0], i.res(a[1])))
        b('__getattribute__', lambda i, a, k: i.default_getattr(
            i.res(a[0]), i.res(a[1])))
        b('__repr__', lambda i, a, k: i.default_repr(i.res(a[0])))
        b('__str__', lambda i, a, k: i.repr_(a[0]))
        b('__format__', lambda i, a, k: i.str_(a[0]))
        b('__reduce_ex__', lambda i, a, k: i.top('object.__reduce_ex__'))
        b('__reduce__', lambda i, a, k: i.top('object.__reduce__'))
        b('__dir__', lambda i, a, k: i.top('dir'))
        om[(object, '__init_subclass__')] = VDescr('classmethod', VBuiltin(
            '__init_subclass__', lambda i, a, k: None))
        om[(object, '__subclasshook__')] = VDescr('classmethod', VBuiltin(
            '__subclasshook__', lambda i, a, k: NotImplemented))
        om[(object, '__class__')] = VDescr('property', VBuiltin(
            '__class__', lambda i, a, k: i.type_of(a[0])))
        om[(object, '__doc__')] = None
        om[(object, '__module__')] = 'builtins'

        def t(name, f):
            om[(type, name)] = VBuiltin('type.' + name, f)
        om[(type, '__new__')] = VDescr('staticmethod', VBuiltin(
            'type.__new__', lambda i, a, k: i.type_new(a[0], a[1:], k)))
        t('__init__', lambda i, a, k: None)
        t('__call__', lambda i, a, k: i.type_call(a[0], a[1:], k)
          if isinstance(a[0], VClass) else i.call(a[0], a[1:], k))
        t('__setattr__', lambda i, a, k: i.setattr_(a[0], i.res(a[1]), a[2]))
        t('__subclasses__', lambda i, a, k: i.list(
            a[0].subs if isinstance(a[0], VClass) else a[0].__subclasses__()))
        t('mro', lambda i, a, k: i.list(mro_of(a[0])))
        t('__instancecheck__', lambda i, a, k: i.isinstance_(a[1], a[0]))
        t('__subclasscheck__', lambda i, a, k: i.issub(a[1], a[0]))
        t('__repr__', lambda i, a, k: "<class '%s'>" % cls_name(a[0]))
        import abc
        om[(abc.ABCMeta, 'register')] = VBuiltin('register', self.abc_register)
        self.raw_attr_models[(abc.ABCMeta, 'register')] = om[
            (abc.ABCMeta, 'register')]
        self.raw_attr_models[(abc.ABCMeta, '__new__')] = VDescr(
            'staticmethod', VBuiltin('ABCMeta.__new__', lambda i, a, k:
                                     i.type_new(a[0], a[1:], k)))
        for n in ('__instancecheck__', '__subclasscheck__'):
            self.raw_attr_models[(abc.ABCMeta, n)] = om[(type, n)]
        # exceptions
        self.raw_attr_models[(BaseException, '__init__')] = VBuiltin(
            'BaseException.__init__', self.exc_init)
        self.raw_attr_models[(Exception, '__init__')] = VBuiltin(
            'Exception.__init__', self.exc_init)
        for c in (SyntaxError, ValueError, TypeError, KeyError, LookupError,
                  AssertionError, NotImplementedError, ArithmeticError,
                  AttributeError, ImportError, OSError, StopIteration,
                  UnicodeError):
            if '__init__' in c.__dict__:
                self.raw_attr_models[(c, '__init__')] = VBuiltin(
                    c.__name__ + '.__init__', self.exc_init)
        for c in [x for x in vars(_b).values() if isinstance(x, type) and
                  issubclass(x, BaseException)]:
            for n in ('__str__', '__repr__'):
                if n in c.__dict__:
                    self.raw_attr_models[(c, n)] = VBuiltin(
                        n, self.exc_str if n == '__str__' else self.exc_repr)

    def exc_init(self, i, a, k):
        if 'args' not in i.res(a[0]).attrs or a[1:]:
            i.setattr_raw(i.res(a[0]), 'args', tuple(a[1:]))

    def exc_str(self, i, a, k):
        args = i.getattr_(a[0], 'args', ())
        if len(args) == 0:
            return ''
        if len(args) == 1:
            return i.str_(args[0])
        return i.repr_(tuple(args))

    def exc_repr(self, i, a, k):
        return i.text([cls_name(i.res(a[0]).cls), '(', i.exc_str(i, a, k),
                       ')'])

    def obj_ne(self, a):
        f = self.lookup_special(a[0], '__eq__')
        if f is None:
            return True if self.res(a[0]) is not self.res(a[1]) else \
                NotImplemented
        r = self.res(self.call(f, [a[1]], {}))
        if r is NotImplemented:
            return r
        return not self.truth(r)

    def default_getattr(self, o, name):
        if name in o.attrs:
            return o.attrs[name]
        f = self.class_lookup(o.cls, name)
        if f is MISSING:
            self.throw(AttributeError, "'%s' object has no attribute '%s'" %
                       (cls_name(o.cls), name))
        return self.bind(f, o, o.cls)

    def abc_register(self, i, a, k):
        c, sub = i.res(a[0]), i.res(a[1])
        if isinstance(c, VClass):
            c.abc_registry.append(sub)
        return sub

    def cmpkey_class(self):
        if self.cmpkey is None:
            def lt(i, a, k):
                r = i.call(a[0].attrs['cmp'], [a[0].attrs['obj'],
                                               a[1].attrs['obj']], {})
                return i.compare('<', r, 0)

            def gt(i, a, k):
                r = i.call(a[0].attrs['cmp'], [a[0].attrs['obj'],
                                               a[1].attrs['obj']], {})
                return i.compare('>', r, 0)
            self.cmpkey = VClass('K', [object], {
                '__lt__': VBuiltin('lt', lt), '__gt__': VBuiltin('gt', gt)},
                type, None, 0)
        return self.cmpkey

    # numeric --------------------------------------------------------------

    def index(self, v):
        """operator.index"""
        v = self.res(v)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int) and type(v) is int:
            return v
        if isinstance(v, Lin) or isinstance(v, Sym) and v.pytype is int:
            return v
        if isinstance(v, Sym) and v.pytype is bool:
            return 1 if self.truth(v) else 0
        if isinstance(v, VObj):
            f = self.lookup_special(v, '__index__')
            if f is not None:
                return self.res(self.call(f, [], {}))
            if isinstance(v.payload, int):
                return v.payload
        elif isinstance(v, Sym) and v.pytype is None:
            return self.top('index of unknown')
        elif isinstance(v, Sym) and v.pytype is not None and \
                hasattr(v.pytype, '__index__'):
            return self.term('index', [v], int)
        elif not isinstance(v, (AbsVal, tuple)):
            try:
                return operator.index(v)
            except TypeError as e:
                self.throw(TypeError, str(e))
        self.throw(TypeError, "'%s' object cannot be interpreted as an "
                   "integer" % cls_name(self.type_of(v)))

    def len_(self, v):
        v = self.res(v)
        if isinstance(v, VObj):
            if v.cls is range:
                n = self.res(self.range_len(v))
                if self.int_cmp('>', n, sys.maxsize):
                    self.throw(OverflowError, 'Python int too large to '
                               'convert to C ssize_t')
                return n
            f = self.lookup_special(v, '__len__')
            if f is not None and not isinstance(
                    getattr(f, 'func', None), types.WrapperDescriptorType):
                return self.res(self.call(f, [], {}))
            if v.payload is not None:
                return self.len_(v.payload)
            self.throw(TypeError, "object of type '%s' has no len()" %
                       cls_name(v.cls))
        if isinstance(v, VList):
            return len(v.items)
        if isinstance(v, (VSet, VDict)):
            return len(v.d)
        if isinstance(v, VView):
            return len(v.d.d)
        if isinstance(v, Sym):
            if v.pytype is str or v.pytype is bytes:
                n = v.preds.get('len')
                if n is None:
                    n = self.sym(int, 'len(%s)' % v.name, lo=0)
                    if v.lang is not None:
                        n.lo, n.hi = v.lang.len_bounds()
                    v.preds['len'] = n
                return self.res(n)
            if v.pytype is None:
                return self.top('len of unknown')
            if 'len' in v.attrs:
                return v.attrs['len']
        if isinstance(v, Tmpl):
            tot = 0
            for p in v.parts:
                if isinstance(p, str):
                    tot = self.binop('+', tot, len(p))
                elif p.fmt == 's' and isinstance(p.val, Sym) and \
                        p.val.pytype is str:
                    tot = self.binop('+', tot, self.len_(p.val))
                else:
                    tot = self.binop('+', tot, self.term(
                        'len' + p.fmt, [p.val], int,
                        lo={'d': 1, 'r': 2}.get(p.fmt, 0)))
            return tot
        if isinstance(v, VClass):
            f = self.lookup_special(v, '__len__')
            if f is not None:
                return self.call(f, [], {})
        if isinstance(v, AbsVal):
            self.throw(TypeError, "object of type '%s' has no len()" %
                       cls_name(self.type_of(v)))
        try:
            return len(v)
        except TypeError as e:
            self.throw(TypeError, str(e))

    # text -----------------------------------------------------------------

    def text(self, parts):
        out = []
        for p in parts:
            p = self.res(p)
            if isinstance(p, Sym):
                if p.pytype is None:
                    p = Hole(p, 't')
                else:
                    p = Hole(p, 's')
            elif isinstance(p, VObj) and p.payload is not None:
                p = self.res(p.payload)
                if isinstance(p, Sym):
                    p = Hole(p, 's')
            out.append(p)
        return self.tmpl(out)

    def str_(self, v):
        v = self.res(v)
        if isinstance(v, str) or isinstance(v, Tmpl):
            return v if type(v) is str or isinstance(v, Tmpl) else str(v)
        if isinstance(v, Sym):
            if v.pytype is str:
                return v
            if v.pytype is bool:
                return str(self.truth(v))
            if v.pytype is int:
                return self.tmpl([Hole(v, 'd')])
            if v.pytype is None:
                return self.top('text of unknown')
            return self.tmpl([Hole(v, 't')])
        if isinstance(v, Lin):
            return self.tmpl([Hole(v, 'd')])
        if isinstance(v, VObj):
            f = self.user_lookup(v.cls, '__str__')
            if f is MISSING and v.payload is not None and \
                    self.user_lookup(v.cls, '__repr__') is MISSING:
                return self.str_(v.payload)
            if f is not MISSING and not isinstance(
                    f, (types.WrapperDescriptorType,)):
                r = self.res(self.call(self.bind(f, v, v.cls), [], {}))
                if self.type_of(r) not in (str, None) and not (
                        isinstance(r, VObj) and self.issub(r.cls, str)):
                    self.throw(TypeError, '__str__ returned non-string '
                               '(type %s)' % cls_name(self.type_of(r)))
                return r
            return self.repr_(v)
        if isinstance(v, AbsVal) or type(v) is tuple:
            return self.repr_(v)
        try:
            return str(v)
        except Exception as e:
            self.throw_native(e)

    def repr_(self, v):
        v = self.res(v)
        if isinstance(v, Sym):
            if v.pytype is str:
                return self.tmpl([Hole(v, 'r')])
            if v.pytype in (bool, int):
                return self.str_(v)
            if v.pytype is None:
                return self.top('repr of unknown')
            return self.tmpl([Hole(v, 't')])
        if isinstance(v, Tmpl):
            return self.tmpl([Hole(v, 'r')])
        if isinstance(v, Lin):
            return self.tmpl([Hole(v, 'd')])
        if isinstance(v, VObj):
            f = self.user_lookup(v.cls, '__repr__')
            if f is not MISSING and not isinstance(
                    f, (types.WrapperDescriptorType,)):
                r = self.res(self.call(self.bind(f, v, v.cls), [], {}))
                if self.type_of(r) not in (str, None):
                    self.throw(TypeError, '__repr__ returned non-string '
                               '(type %s)' % cls_name(self.type_of(r)))
                return r
            if v.payload is not None:
                return self.repr_(v.payload)
            return self.default_repr(v)
        if isinstance(v, VClass):
            f = self.user_lookup(v.meta, '__repr__')
            if isinstance(f, VFunc):
                return self.call(VBound(f, v), [], {})
            return "<class '%s.%s'>" % (v.module.name if v.module else
                                        'builtins', v.qualname)
        if type(v) is tuple:
            parts = ['(']
            for n, x in enumerate(v):
                if n:
                    parts.append(', ')
                parts.append(self.repr_(x))
            if len(v) == 1:
                parts.append(',')
            return self.text(parts + [')'])
        if isinstance(v, VList):
            parts = ['[']
            for n, x in enumerate(v.items):
                if n:
                    parts.append(', ')
                parts.append(self.repr_(x))
            return self.text(parts + [']'])
        if isinstance(v, VSet):
            if not v.d:
                return 'frozenset()' if v.frozen else 'set()'
            parts = ['frozenset({' if v.frozen else '{']
            for n, x in enumerate(self.set_order(v)):
                if n:
                    parts.append(', ')
                parts.append(self.repr_(x))
            return self.text(parts + ['})' if v.frozen else '}'])
        if isinstance(v, VDict):
            parts = ['{']
            for n, (x, y) in enumerate(v.d.values()):
                if n:
                    parts.append(', ')
                parts += [self.repr_(x), ': ', self.repr_(y)]
            return self.text(parts + ['}'])
        if isinstance(v, VFunc):
            return '<function %s>' % v.qualname
        if isinstance(v, AbsVal):
            return self.tmpl([Hole(v, 't')])
        try:
            return repr(v)
        except Exception as e:
            self.throw_native(e)

    def default_repr(self, v):
        return self.text(['<%s object at ' % cls_name(self.type_of(v)),
                          Hole(v, 't'), '>'])

    def format_(self, v, spec):
        v, spec = self.res(v), self.res(spec)
        if isinstance(v, VObj):
            f = self.user_lookup(v.cls, '__format__')
            if isinstance(f, VFunc):
                return self.call(self.bind(f, v, v.cls), [spec], {})
        if spec == '':
            return self.str_(v)
        if isinstance(spec, str):
            if spec == 'd' and self.lin(v) is not None and isinstance(
                    v, AbsVal):
                return self.str_(v)
            if spec == 's' and self.type_of(v) is str:
                return v
            if not isinstance(v, AbsVal) and type(v) is not tuple:
                try:
                    return format(v, spec)
                except Exception as e:
                    self.throw_native(e)
            if isinstance(v, VObj):
                self.throw(TypeError, 'unsupported format string passed to '
                           '%s.__format__' % cls_name(v.cls))
        return self.term('format', [v, spec], str)

    def percent(self, fmt, args):
        fmt, args = self.res(fmt), self.res(args)
        if isinstance(fmt, VObj):
            fmt = self.res(fmt.payload)
        if not isinstance(fmt, str):
            return self.top('format of unknown text')
        parts, pos, n = [], 0, 0
        mapping = args if isinstance(args, VDict) else None
        istuple = type(args) is tuple
        xs = list(args) if istuple else [args]
        used_named = False
        for m in re.finditer(r'%(\(([^)]*)\))?([-+ #0]*)(\*|\d+)?'
                             r'(\.(\*|\d+))?[hlL]?(.)', fmt, re.S):
            parts.append(fmt[pos:m.start()])
            pos = m.end()
            c = m.group(7)
            if c == '%':
                parts.append('%')
                continue
            if m.group(4) == '*' or m.group(6) == '*':
                raise Budget('* in format')
            if m.group(1):
                if mapping is None:
                    self.throw(TypeError, 'format requires a mapping')
                used_named = True
                v = self.getitem(mapping, m.group(2))
            else:
                if n >= len(xs):
                    self.throw(TypeError,
                               'not enough arguments for format string')
                v = xs[n]
                n += 1
            plain = not (m.group(3) or m.group(4) or m.group(5))
            v = self.res(v)
            if c == 's':
                t = self.str_(v)
            elif c in 'ra':
                t = self.repr_(v)
            elif c in 'diu':
                if isinstance(v, VObj) or isinstance(v, AbsVal) and \
                        self.lin(v) is None or isinstance(v, tuple) or \
                        isinstance(v, (str, bytes)) or v is None:
                    if isinstance(v, VObj) and v.payload is None:
                        f = self.lookup_special(v, '__index__') or \
                            self.lookup_special(v, '__int__')
                        if f is None:
                            self.throw(TypeError, '%%%s format: a real number'
                                       ' is required, not %s' % (
                                           c, cls_name(v.cls)))
                        v = self.res(self.call(f, [], {}))
                        t = self.str_(v)
                    elif isinstance(v, Sym) and v.pytype in (None, float):
                        t = self.term('percent_d', [v], str)
                    elif isinstance(v, Sym) and v.pytype is bool:
                        t = str(int(self.truth(v)))
                    else:
                        self.throw(TypeError, '%%%s format: a real number is '
                                   'required, not %s' % (
                                       c, cls_name(self.type_of(v))))
                elif isinstance(v, AbsVal):
                    t = self.str_(v)
                else:
                    try:
                        t = '%d' % v
                    except Exception as e:
                        self.throw_native(e)
            else:
                if isinstance(v, AbsVal):
                    t = self.term('percent_' + c, [v], str)
                else:
                    try:
                        t = ('%' + c) % v
                    except Exception as e:
                        self.throw_native(e)
            t = self.res(t)
            if not plain:
                spec = '%' + (m.group(3) or '') + (m.group(4) or '') + \
                    (m.group(5) or '') + c
                if not isinstance(v, AbsVal) and type(v) is not tuple:
                    try:
                        t = spec % v
                    except Exception as e:
                        self.throw_native(e)
                elif isinstance(t, str) and c in 'sra':
                    t = (spec[:-1] + 's') % t
                else:
                    t = self.term('percent', [spec, v], str)
            parts.append(t)
        parts.append(fmt[pos:])
        if istuple and n < len(xs) and not used_named:
            self.throw(TypeError, 'not all arguments converted during string '
                       'formatting')
        if not istuple and n == 0 and mapping is None and not isinstance(
                args, (VList, VObj)):
            self.throw(TypeError, 'not all arguments converted during string '
                       'formatting')
        return self.text(parts)

    # knowledge about unknown text -----------------------------------------

    def hole_text(self, h):
        return h.val if h.fmt == 's' else Tmpl((h,))

    def hole_may_contain(self, h, c):
        """May the text of this hole contain the one-character string c?"""
        if h.fmt == 'd':
            return c in '-0123456789'
        if h.fmt == 'r':
            if not c.isprintable():
                return False
            return True
        v = h.val
        if isinstance(v, Sym) and v.pytype is str:
            return self.str_has_maybe(v, c)
        return True

    def derive(self, s, op, args):
        """Text computed from unknown text by an operation whose inverse
        image of a regular language is regular: decisions about the result
        are decisions about the source."""
        t = self.term(op, [s] + list(args), str)
        if isinstance(t, Sym) and 'pre' not in t.attrs:
            if s.lang is None:
                s.lang = rx.ANY
            t.lang = rx.ANY
            t.attrs['pre'] = (s, rx.preimage(op, args))
        return t

    def str_has_maybe(self, s, c):
        k = ('has', c)
        if k in s.preds:
            return s.preds[k]
        if s.lang is not None:
            return s.lang.may_contain(c)
        return True

    def str_has(self, s, c):
        """Decide c in s, partitioning."""
        k = ('has', c)
        if k in s.preds:
            return s.preds[k]
        if s.lang is not None:
            yes, no = s.lang.split_contains(c)
            r = self.refine(s, yes, no, '%r in %s' % (c, s.name))
        else:
            r = self.choose(2, '%r in %s' % (c, s.name)) == 0
        s.preds[k] = r
        return r

    def refine(self, s, yes, no, label):
        """Partition the language of s into yes and no."""
        if 'pre' in s.attrs:
            src, pre = s.attrs['pre']
            y = pre(yes)
            base = src.lang if src.lang is not None else rx.ANY
            return self.refine(src, base & y, base - y, label)
        if yes.empty():
            return False
        if no.empty():
            return True
        if self.choose(2, label) == 0:
            s.lang = yes
            self.relang(s)
            return True
        s.lang = no
        self.relang(s)
        return False

    def lang_decide(self, s, l, label):
        """Is the text in the language?  Partition."""
        base = s.lang if s.lang is not None else rx.ANY
        return self.refine(s, base & l, base - l, label)

    def whole_text(self, x):
        """Is the number a text denotes an integer?"""
        if 'whole' not in x.preds:
            for kind, yes in (('whole', True), ('fraction', False)):
                if self.lang_certain(x, NUMBER[kind]):
                    break
            else:
                if self.lang_decide(x, NUMBER['infinite'] | NUMBER['nan'],
                                    '%s is not finite' % x.name):
                    yes = False
                else:
                    yes = self.choose(2, '%s is an integer' % x.name) == 0
            x.preds['whole'] = yes
        return x.preds['whole']

    def lang_certain(self, s, l):
        """Is every text s may be in the language?"""
        while 'pre' in s.attrs:
            src, pre = s.attrs['pre']
            s, l = src, pre(~l)
            base = s.lang if s.lang is not None else rx.ANY
            l = ~l
        if s.val is not Sym.UNSET:
            return l.contains(s.val)
        base = s.lang if s.lang is not None else rx.ANY
        return (base - l).empty()

    def words(self, s, gap, strip):
        """The pieces of an unknown text between texts of a language (runs
        of some characters); None if they cannot be told."""
        if s.lang is None and 'pre' not in s.attrs:
            s.lang = rx.ANY
        word = rx.star([i for i in range(rx.N) if i not in gap])
        some = rx.plus([i for i in range(rx.N) if i not in gap])
        runs = rx.plus(gap)
        if strip:
            s = self.res(STR_M['strip'](self, s, [], {}))
            if not isinstance(s, Sym):
                return None
            word = some
            if not self.truth(s):
                return []
        whole = word
        for n in range(1, 6):
            if self.lang_decide(s, whole, '%s has %d parts' % (s.name, n)):
                break
            whole = rx.concat(rx.concat(whole, runs), word)
        else:
            return None
        if n == 1:
            return [s]
        out = []
        for k in range(n):
            def pre(l, k=k):
                r = None
                for j in range(n):
                    w = l & word if j == k else word
                    r = w if r is None else rx.concat(rx.concat(r, runs), w)
                return r
            t = self.term('word', [s, n, k], str)
            if isinstance(t, Sym) and 'pre' not in t.attrs:
                t.lang = rx.ANY
                t.attrs['pre'] = (s, pre)
            out.append(t)
        return out

    def relang(self, s):
        n = s.preds.get('len')
        if isinstance(n, Sym) and n.val is Sym.UNSET:
            lo, hi = s.lang.len_bounds()
            if lo is not None and (n.lo is None or lo > n.lo):
                n.lo = lo
            if hi is not None and (n.hi is None or hi < n.hi):
                n.hi = hi
            self._trim(n)
        w = s.lang.single()
        if w is not None and 'pre' not in s.attrs:
            s.val = w
            self.check_preds(s, w)

    def str_contains(self, c, x):
        x = self.res(x)
        if self.type_of(x) is None:
            return self.truth(self.top('membership of unknown'))
        if self.type_of(x) is not str:
            self.throw(TypeError, "'in <string>' requires string as left "
                       "operand, not %s" % cls_name(self.type_of(x)))
        if x == '':
            return True
        if isinstance(c, Sym):
            if isinstance(x, str):
                return self.str_has(c, x)
            return self.truth(self.term('in', [x, c], bool))
        if isinstance(x, str):
            if any(isinstance(p, str) and x in p for p in c.parts):
                return True
            if len(x) == 1:
                for p in c.parts:
                    if isinstance(p, Hole) and self.hole_may_contain(p, x):
                        break
                else:
                    return False
                hs = [p for p in c.parts if isinstance(p, Hole) and
                      self.hole_may_contain(p, x)]
                if len(hs) == 1 and hs[0].fmt == 's' and isinstance(
                        hs[0].val, Sym) and hs[0].val.pytype is str:
                    return self.str_has(hs[0].val, x)
        return self.truth(self.term('in', [x, c], bool))

    def str_predicate(self, s, name, args):
        """Boolean method of unknown text."""
        if isinstance(s, Tmpl):
            if name in ('startswith', 'endswith') and len(args) == 1:
                edge = s.parts[0] if name == 'startswith' else s.parts[-1]
                opts = args[0] if isinstance(args[0], tuple) else args
                if isinstance(edge, str):
                    rs = []
                    for o in opts:
                        if len(o) <= len(edge):
                            rs.append(getattr(edge, name)(o))
                        elif not (o.startswith(edge) if name == 'startswith'
                                  else o.endswith(edge)):
                            rs.append(False)
                        else:
                            rs.append(None)
                    if any(rs):
                        return True
                    if all(r is False for r in rs):
                        return False
            return self.truth(self.term(name, [s] + list(args), bool))
        k = (name, args)
        if k in s.preds:
            return s.preds[k]
        if s.lang is not None:
            sp = s.lang.split_method(name, args)
            if sp is not None:
                r = self.refine(s, sp[0], sp[1], '%s.%s%r' % (s.name, name,
                                                              args))
                s.preds[k] = r
                return r
        r = self.choose(2, '%s.%s%r' % (s.name, name, args)) == 0
        s.preds[k] = r
        return r

    def str_getitem(self, s, k):
        k = self.res(k)
        if isinstance(s, Tmpl):
            # constant prefix or suffix
            if isinstance(k, int) and k >= 0 and isinstance(
                    s.parts[0], str) and k < len(s.parts[0]):
                return s.parts[0][k]
            if isinstance(k, int) and k < 0 and isinstance(
                    s.parts[-1], str) and -k <= len(s.parts[-1]):
                return s.parts[-1][k]
            if isinstance(k, slice) and k.step is None:
                parts = list(s.parts)
                a, b = k.start or 0, k.stop
                ok = a >= 0 and (b is None or b < 0)
                if ok and a:
                    if isinstance(parts[0], str) and len(parts[0]) >= a:
                        parts[0] = parts[0][a:]
                    else:
                        ok = False
                if ok and b is not None:
                    if isinstance(parts[-1], str) and len(parts[-1]) >= -b:
                        parts[-1] = parts[-1][:b]
                    else:
                        ok = False
                if ok:
                    return self.text(parts)
                if a >= 0 and b is not None and b >= 0 and isinstance(
                        parts[0], str) and b <= len(parts[0]):
                    return parts[0][a:b]
            if isinstance(k, slice) and k == slice(None, None, None):
                return s
        if isinstance(k, slice) and k == slice(None, None, None):
            return s
        if isinstance(k, slice) and isinstance(s, Sym) and k.step is None \
                and (k.start, k.stop) not in ((None, 1), (0, 1)) and all(
                    x is None or isinstance(x, int) and -9 <= x <= 9
                    for x in (k.start, k.stop)):
            return self.derive(s, 'slice', [k.start, k.stop])
        if isinstance(s, Sym) and s.lang is not None and isinstance(
                k, (int, slice)):
            r = self.lang_getitem(s, k)
            if r is not None:
                return r
        if isinstance(k, int):
            n = self.len_(s)
            if self.compare('<=', n, k if k >= 0 else -k - 1):
                self.throw(IndexError, 'string index out of range')
        return self.term('item', [s, k if not isinstance(k, slice) else
                                  ('slice', k.start, k.stop, k.step)], str)

    def lang_getitem(self, s, k):
        """First or last character of a text of known language: partition by
        classes of characters that behave alike."""
        if isinstance(k, slice):
            if (k.start or 0) == 0 and k.stop == 1 and k.step is None:
                if not self.compare('!=', self.len_(s), 0):
                    return ''
                k = 0
            else:
                return None
        if k != 0:
            return None
        groups = s.lang.first_chars()
        if groups is None:
            return None
        t = self.term('char0', [s], str)
        if isinstance(t, Sym) and t.lang is None:
            t.lang = groups
        return t

    # regular expressions on unknown text ----------------------------------

    def re_abs(self, name, pat, s, rest):
        if isinstance(s, Sym) and s.pytype is str and s.lang is not None \
                and name in ('match', 'fullmatch', 'search') and not rest:
            sp = s.lang.split_regex(pat, name)
            if sp is not None:
                if not self.refine(s, sp[0], sp[1], '%s(%r, %s)' % (
                        name, pat.pattern, s.name)):
                    return None
                return Sym(re.Match, 'match')
        if isinstance(s, Sym) and s.pytype is str and name in (
                'match', 'fullmatch', 'search') and not rest:
            k = ('re', name, pat.pattern, pat.flags)
            if k not in s.preds:
                s.preds[k] = self.choose(2, '%s(%r, %s)' % (
                    name, pat.pattern, s.name)) == 0
            return Sym(re.Match, 'match') if s.preds[k] else None
        if self.type_of(s) not in (str, None):
            self.throw(TypeError, 'expected string or bytes-like object')
        return self.top('regular expression on text template')

    # numpy ------------------------------------------------------------------

    def dtype_sym(self, name, like, **attrs):
        """An abstract dtype; like is a representative constant dtype."""
        s = Sym(np.dtype, name)
        s.attrs.update(like=like, kind=like.kind, char=like.char,
                       type=like.type, fields=None, names=None, shape=(),
                       byteorder=like.byteorder, num=like.num,
                       subdtype=None)
        s.attrs['base'] = s
        s.attrs.update(attrs)
        return s

    def np_dtype(self, a, k):
        v = self.res(a[0])
        if isinstance(v, Sym) and v.pytype is np.dtype:
            return v
        if isinstance(v, Tmpl):
            if len(v.parts) == 2 and v.parts[0] in ('S', 'U', '<U', '|S',
                                                    '>U', 'a') and \
                    v.parts[1].fmt == 'd':
                n = v.parts[1].val
                if v.parts[0][-1] in 'Sa':
                    like, size = np.dtype('S1'), n
                else:
                    like, size = np.dtype('U1'), self.binop('*', n, 4)
                key = ('dtype', v.parts[0][-1], self.key(n))
                t = self.run.terms.get(key)
                if t is None:
                    t = self.dtype_sym('dtype(%s)' % self.show(v), like,
                                       itemsize=size,
                                       str=self.text([v.parts[0], v.parts[1]]))
                    t.attrs['count'] = n
                    t.attrs['name'] = self.text(
                        ['bytes' if like.kind == 'S' else 'str',
                         Hole(self.binop('*', size, 8), 'd')])
                    self.run.terms[key] = t
                return t
            return self.top('dtype of text')
        if isinstance(v, (VList, VDict)) or isinstance(v, tuple):
            try:
                nat = self.to_native(v)
            except ValueError:
                nat = MISSING
            if nat is MISSING and isinstance(v, VList):
                names, fields = [], []
                for x in v.items:
                    xs = self.as_list(x)
                    nm, dt = self.res(xs[0]), self.np_dtype([xs[1]], {})
                    if self.type_of(nm) is not str:
                        self.throw(TypeError, 'field names must be strings')
                    dt = self.res(dt)
                    if isinstance(dt, Sym) and dt.pytype is None:
                        return self.top('struct dtype')
                    for other in names:
                        if self.compare('==', other, nm):
                            self.throw(ValueError, 'field occurs more than '
                                       'once')
                    names.append(nm)
                    fields.append((nm, dt))
                t = self.dtype_sym('struct', np.dtype([('f', 'i1')]))
                t.attrs['names'] = tuple(names)
                t.attrs['fields'] = self.dict(
                    [(n, (d, self.top('offset'))) for n, d in fields])
                t.attrs['itemsize'] = self.top('itemsize')
                t.attrs['struct'] = tuple(fields)
                al = a[1] if len(a) > 1 else k.get('align', False)
                t.attrs['isalignedstruct'] = self.truth(al)
                return t
            if nat is MISSING:
                return self.top('dtype')
            return self.native(np.dtype, [v], k)
        if isinstance(v, VClass) or isinstance(v, VObj):
            if isinstance(v, VObj):
                dt = self.getattr_(v, 'dtype', None)
                if dt is None:
                    self.throw(TypeError, 'Cannot interpret as a data type')
                return dt
            return np.dtype(object)
        if isinstance(v, Sym):
            if v.pytype is str:
                key = ('dtype_ok',)
                if key not in v.preds:
                    v.preds[key] = self.choose(2, 'dtype(%s)' % v.name) == 0
                if not v.preds[key]:
                    self.throw(TypeError, 'data type not understood')
            return self.top('dtype')
        return self.native(np.dtype, a, k)

    # multiple dispatch ----------------------------------------------------

    def md_module(self):
        m = VModule('multipledispatch', '<model>', 0)
        glob = VDict(0)
        m.ns['dispatch'] = VBuiltin('dispatch', lambda i, a, k: i.md_dispatch(
            a, k, glob))
        m.ns['Dispatcher'] = VBuiltin('Dispatcher', lambda i, a, k:
                                      VDispatcher(a[0], i.run.rid))
        m.ns['MDNotImplementedError'] = NotImplementedError
        m.loaded = True
        return m

    def md_dispatch(self, types_, k, glob):
        ns = self.res(k.get('namespace', glob))

        def deco(i, b, kw):
            func = b[0]
            name = i.getattr_(func, '__name__')
            d = i.dict_get(ns, name)
            if d is MISSING:
                d = VDispatcher(name, i.run.rid)
                i.dict_set(ns, name, d)
            i.md_add(d, types_, func)
            return d
        return VBuiltin('dispatch', deco)

    def md_add(self, d, sig, func):
        sig = [self.res(t) for t in sig]
        for n, t in enumerate(sig):
            if isinstance(t, VList):
                raise Budget('variadic dispatch')
            if isinstance(t, types.UnionType):
                t = t.__args__
            if isinstance(t, tuple):
                for x in t:
                    self.md_add(d, sig[:n] + [x] + sig[n + 1:], func)
                return
            if not isinstance(t, (VClass, type)):
                self.throw(TypeError, 'Tried to dispatch on non-type')
        key = tuple(id(t) for t in sig)
        old = d.funcs.get(key)

        def undo():
            if old is None:
                d.funcs.pop(key, None)
            else:
                d.funcs[key] = old
        self.mark(d, undo, 'rule of %s' % d.name)
        d.funcs[key] = (tuple(sig), func)

    def md_resolve(self, d, ts):
        """Most specific applicable rules (more than one: ambiguous)."""
        app = [(s, f) for s, f in d.funcs.values() if len(s) == len(ts) and
               all(self.issub(t, c) for t, c in zip(ts, s))]
        best = []
        for s, f in app:
            for s2, f2 in app:
                if s2 is s:
                    continue
                if all(self.issub(x, y) for x, y in zip(s2, s)) and \
                        not all(self.issub(x, y) for x, y in zip(s, s2)):
                    break
            else:
                best.append((s, f))
        return best

    def call_dispatcher(self, d, args, kwargs):
        ts = []
        for n, a in enumerate(args):
            t = self.type_of(a)
            if t is None:
                self.imprecise('dispatch of %s on unknown class' % d.name)
                cls = []
                for s, f in d.funcs.values():
                    if len(s) == len(args) and not any(s[n] is c
                                                       for c in cls):
                        cls.append(s[n])
                t = cls[self.choose(len(cls), 'dispatch')]
            ts.append(t)
        exact = d.funcs.get(tuple(id(t) for t in ts))
        if exact is not None:
            best = [exact]
        else:
            best = self.md_resolve(d, ts)
        if not best:
            self.throw(NotImplementedError, 'Could not find signature for %s:'
                       ' <%s>' % (d.name, ', '.join(map(cls_name, ts))))
        if len(best) > 1:
            self.run.ambiguous.append((d.name, tuple(map(cls_name, ts)),
                                       [tuple(map(cls_name, s))
                                        for s, f in best]))
            best = [best[self.choose(len(best), 'ambiguous dispatch')]]
        return self.call(best[0][1], args, kwargs)

    # attributes of library values -------------------------------------------

    def method(self, table, o, name):
        f = table.get(name)
        if f is None:
            return MISSING
        return VBuiltin(name, lambda i, a, k: f(i, o, a, k))

    def library_getattr(self, o, name):
        if name == '__class__':
            return self.type_of(o)
        if isinstance(o, VList):
            r = self.method(LIST_M, o, name)
        elif type(o) is tuple:
            r = self.method(LIST_M, o, name) if name in (
                'index', 'count', '__len__', '__iter__', '__contains__',
                '__getitem__', '__eq__') else MISSING
            if name == '__hash__':
                return VBuiltin(name, lambda i, a, k: i.hash_(o))
        elif isinstance(o, VDict):
            r = self.method(DICT_M, o, name)
        elif isinstance(o, VSet):
            r = self.method(SET_M, o, name)
        elif isinstance(o, VView):
            if name in ('isdisjoint',):
                return VBuiltin(name, lambda i, a, k: s_isdisjoint(
                    i, i.set(i.as_list(o)), a, k))
            r = MISSING
        elif isinstance(o, str):
            return self.const_str_attr(o, name)
        elif isinstance(o, Tmpl) or isinstance(o, Sym) and o.pytype is str:
            r = self.method(STR_M, o, name)
            if r is MISSING and name in STR_METHODS:
                return VBuiltin(name, lambda i, a, k: i.term(
                    name, [o] + list(a), str) if name not in (
                        'split', 'rsplit', 'splitlines', 'partition',
                        'rpartition', 'find', 'rfind', 'index', 'count')
                    else i.str_misc(o, name, a))
        elif isinstance(o, Sym):
            return self.sym_getattr(o, name)
        elif isinstance(o, Lin):
            return self.sym_getattr(o, name)
        elif isinstance(o, VDispatcher):
            if name in ('register', 'add'):
                def reg(i, a, k):
                    if name == 'add':
                        return i.md_add(o, i.as_list(a[0]), a[1])

                    def deco(i, b, k):
                        i.md_add(o, a, b[0])
                        return b[0]
                    return VBuiltin('register', deco)
                return VBuiltin(name, reg)
            if name in ('__name__', 'name'):
                return o.name
            if name == 'dispatch':
                def disp(i, a, k):
                    best = i.md_resolve(o, [i.res(x) for x in a])
                    return best[0][1] if best else None
                return VBuiltin(name, disp)
            if name == 'funcs':
                return self.dict([(s, f) for s, f in o.funcs.values()])
            if name in ('__doc__', '__module__'):
                return ''
            r = MISSING
        elif isinstance(o, VPartial):
            if name in o.attrs:
                return o.attrs[name]
            if name == 'func':
                return o.func
            if name == 'args':
                return tuple(o.args)
            if name == 'keywords':
                return self.dict(o.kwargs.items())
            r = MISSING
        elif isinstance(o, VDescr):
            if name in ('fget', 'fset', 'fdel'):
                return getattr(o, name)
            if name == '__func__':
                return o.fget
            if name in ('getter', 'setter', 'deleter'):
                def upd(i, a, k):
                    d = VDescr(o.kind, o.fget, o.fset, o.fdel)
                    setattr(d, {'getter': 'fget', 'setter': 'fset',
                                'deleter': 'fdel'}[name], a[0])
                    return d
                return VBuiltin(name, upd)
            if name == '__doc__':
                return None
            r = MISSING
        elif isinstance(o, VIter):
            if name == '__next__':
                return VBuiltin(name, lambda i, a, k: b_next(i, [o], {}))
            if name == '__iter__':
                return VBuiltin(name, lambda i, a, k: o)
            if name == 'close':
                return VBuiltin(name, lambda i, a, k: None)
            r = MISSING
        elif isinstance(o, VBuiltin):
            if name in ('__name__', '__qualname__'):
                return o.name
            if name in ('__doc__', '__module__'):
                return None
            if name == '__call__':
                return o
            r = MISSING
        elif isinstance(o, HashTerm):
            r = MISSING
        elif isinstance(o, AbsVal):
            r = MISSING
        else:
            return self.raw_getattr(o, name)
        if r is MISSING:
            if name == '__doc__':
                return None
            t = self.type_of(o)
            if t is None:
                return self.top('attribute of unknown')
            if isinstance(t, type) and hasattr(t, name) and not \
                    name.startswith('__'):
                return self.top('method %s.%s' % (t.__name__, name))
            self.throw(AttributeError, "'%s' object has no attribute '%s'" %
                       (cls_name(t), name))
        return r

    def str_misc(self, s, name, a):
        if name == 'split' and not a and isinstance(s, Sym):
            out = self.words(s, rx.SPACE, True)
            if out is not None:
                return self.list(out)
        if name in ('find', 'rfind', 'index', 'rindex', 'count'):
            x = self.res(a[0])
            lo = 0 if name == 'count' else -1
            return self.term(name, [s] + list(a), int, lo=lo)
        return self.top('str.%s of unknown text' % name)

    def const_str_attr(self, o, name):
        if name not in STR_METHODS and not hasattr(o, name):
            self.throw(AttributeError, "'str' object has no attribute '%s'" %
                       name)
        f = STR_M.get(name)

        def call(i, a, k):
            if name in ('join', 'format', 'format_map', '__mod__'):
                return f(i, o, a, k)
            try:
                na = [i.to_native(x) for x in a]
                nk = {x: i.to_native(y) for x, y in k.items()}
            except ValueError:
                if name in ('__eq__', '__contains__', '__add__'):
                    return f(i, o, a, k)
                if name in STR_BOOL:
                    for x in a:
                        if i.type_of(x) not in (str, tuple, None):
                            i.throw(TypeError, '%s first arg must be str' %
                                    name)
                    return i.truth(i.term(name, [o] + list(a), bool))
                for x in a:
                    t = i.type_of(x)
                    if name in ('index', 'count', 'find', 'replace') and \
                            t not in (str, None):
                        i.throw(TypeError, 'must be str')
                return i.top('str.%s' % name)
            try:
                return i.to_abs(getattr(o, name)(*na, **nk))
            except Exception as e:
                i.throw_native(e)
        return VBuiltin('str.' + name, call)

    def sym_getattr(self, o, name):
        t = self.type_of(o)
        if isinstance(o, Sym) and name in o.attrs:
            return o.attrs[name]
        if t is None:
            if name not in o.attrs:
                o.attrs[name] = self.top('attribute %s of %s' % (
                    name, o.attrs.get('why', o.name)))
            return o.attrs[name]
        if isinstance(o, Sym) and o.pytype is np.dtype and 'like' in o.attrs:
            if hasattr(np.dtype, name):
                return self.top('dtype.%s' % name)
        if not hasattr(t, name):
            self.throw(AttributeError, "'%s' object has no attribute '%s'" %
                       (t.__name__, name))
        if t is int or t is bool:
            if name == 'real' or name == 'numerator':
                return o
            if name == '__index__' or name == '__int__':
                return VBuiltin(name, lambda i, a, k: i.index(o))
        if name == 'is_integer' and t is float and isinstance(o, Sym) and \
                o.term and o.term[0] == 'float':
            x = self.res(o.term[1][0])
            if isinstance(x, Sym) and x.pytype is str and x.lang is not None:
                return VBuiltin(name, lambda i, a, k: i.whole_text(x))
        if name in ('is_integer',):
            return VBuiltin(name, lambda i, a, k: i.truth(i.term(
                name, [o], bool)))
        if t is re.Match:
            return VBuiltin(name, lambda i, a, k: i.top('match.%s' % name))
        if isinstance(t, type) and issubclass(t, (np.number, np.bool_)) and \
                name in ('dtype', 'shape', 'ndim', 'itemsize', 'size',
                         'nbytes'):
            # what does not depend on the value
            return self.to_abs(getattr(t(0), name))
        d = getattr(t, name)
        if callable(d):
            return VBuiltin(name, lambda i, a, k: i.lib_method(o, t, name,
                                                               a, k))
        key = ('attr', name)
        if key not in o.attrs:
            o.attrs[key] = self.top('%s.%s' % (t.__name__, name))
        return o.attrs[key]

    def lib_method(self, o, t, name, a, k):
        """Method of an unknown library object: a function term."""
        if name == 'dtype':
            return self.top('dtype')
        if name == 'decode' and o.term is not None and \
                o.term[0] == 'encode':
            src = o.term[1][0]
            to = [self.res(x) for x in o.term[1][1:]] or ['utf-8']
            frm = [self.res(x) for x in a] or ['utf-8']
            if to[0] == 'unicode_escape' and frm[0] in ('ascii', 'utf-8',
                                                        'latin1'):
                return self.unicode_escape(src)
            if to == frm and to[0] in ('utf-8', 'utf8'):
                return src
            return self.term('decode', [o] + list(a), str)
        import datetime as dt
        if issubclass(t, dt.datetime) and name in ('time', 'date',
                                                   'timetz'):
            return self.term(name, [o], dt.date if name == 'date' else
                             dt.time)
        return self.top('%s.%s()' % (t.__name__, name))

    def unicode_escape(self, s):
        """A homomorphism on characters: applied piece by piece."""
        out = []
        for p in s.parts if isinstance(s, Tmpl) else [Hole(s, 's')]:
            if isinstance(p, str):
                p = p.encode('unicode_escape').decode('ascii')
            elif p.fmt != 'd':
                t = self.hole_text(p)
                v = p.val
                if not (p.fmt == 's' and isinstance(v, Sym) and
                        v.lang is not None and
                        v.lang.subset(escape_free())):
                    t = self.term('unicode_escape', [t], str)
                p = Hole(t, 's')
            out.append(p)
        return self.text(out)

    def raw_getattr(self, o, name):
        if isinstance(o, type):
            if (o, name) in self.raw_attr_models:
                return self.bind_class_attr(self.raw_attr_models[o, name], o)
            if (o, name) in self.object_models:
                return self.bind_class_attr(self.object_models[o, name], o)
            if o in (str, list, dict, set, frozenset, tuple, int,
                     collections.OrderedDict) and hasattr(o, name):
                m = o.__dict__.get(name)
                if name in ('__name__', '__mro__', '__bases__', '__module__',
                            '__doc__', '__dict__', '__qualname__'):
                    return self.to_abs(getattr(o, name))
                if name == 'fromkeys':
                    return VBuiltin('fromkeys', lambda i, a, k: i.dict(
                        [(x, a[1] if len(a) > 1 else None)
                         for x in i.iterate(a[0])], o))
                if name == '__new__':
                    return VBuiltin('__new__', lambda i, a, k: i.builtin_new(
                        o, a, k))
                if name == '__init__':
                    return VBuiltin('__init__', lambda i, a, k:
                                    i.builtin_init(o, a, k))
                if name == '__subclasses__':
                    return VBuiltin(name, lambda i, a, k: i.list(
                        o.__subclasses__()))
                return VBuiltin('%s.%s' % (o.__name__, name),
                                lambda i, a, k: i.unbound(o, name, a, k))
            if name == '__name__' or name == '__qualname__':
                return getattr(o, name)
            if name == '__subclasses__':
                return VBuiltin(name, lambda i, a, k: i.list(
                    o.__subclasses__()))
            if issubclass(o, BaseException) and name in ('__init__',
                                                         '__new__',
                                                         '__str__',
                                                         '__repr__'):
                for c in o.__mro__:
                    if (c, name) in self.raw_attr_models:
                        return self.raw_attr_models[c, name]
        if isinstance(o, re.Pattern) and name in (
                'match', 'search', 'fullmatch', 'findall', 'finditer',
                'sub'):
            return VBuiltin(name, lambda i, a, k: pat_method(name)(
                i, [o] + a, k))
        if isinstance(o, types.ModuleType) and o is sys and \
                name == 'modules':
            return self.dict([(n, m) for n, m in self.modules.items()])
        try:
            v = getattr(o, name)
        except AttributeError as e:
            self.throw(AttributeError, str(e))
        except Exception as e:
            self.throw_native(e)
        return self.to_abs(v)

    def builtin_new(self, o, a, k):
        c = self.res(a[0])
        if isinstance(c, VClass):
            x = VObj(c, self.run.rid)
            if o in self.payload_types:
                x.payload = self.call(o, a[1:], k) if o in (
                    tuple, str, int, frozenset) else self.call(o, [], {})
            return x
        return self.call(o, a[1:], k)

    def builtin_init(self, o, a, k):
        x = self.res(a[0])
        if isinstance(x, VObj) and o in self.payload_types and o not in (
                tuple, str, int, frozenset):
            x.payload = self.call(o, a[1:], k)

    def unbound(self, t, name, a, k):
        o = self.res(a[0]) if a else self.throw(
            TypeError, 'unbound method needs an argument')
        if isinstance(o, VObj) and o.payload is not None:
            o = self.res(o.payload)
        c = self.type_of(o)
        if c is not None and not self.issub(c, t) and not (
                t is dict and isinstance(o, VDict)):
            self.throw(TypeError, "descriptor '%s' requires a '%s' object" %
                       (name, t.__name__))
        if name in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__',
                    '__ge__'):
            op = {'__eq__': '==', '__ne__': '!=', '__lt__': '<',
                  '__le__': '<=', '__gt__': '>', '__ge__': '>='}[name]
            return self.rich(op, o, a[1])
        if name == '__hash__':
            return self.hash_(o)
        if name in ('__str__', '__repr__'):
            return self.str_(o) if name == '__str__' else self.repr_(o)
        return self.call(self.library_getattr(o, name), a[1:], k)

    # calls of library callables ---------------------------------------------

    def native(self, f, a, k):
        """Fold a pure library function on constants."""
        try:
            na = [self.to_native(x) for x in a]
            nk = {n: self.to_native(x) for n, x in k.items()}
        except ValueError:
            return self.top('%s on unknown arguments' %
                            getattr(f, '__name__', 'library function'))
        try:
            return self.to_abs(f(*na, **nk))
        except Exception as e:
            self.throw_native(e)

    def call_library(self, f, args, kwargs):
        self.step()
        m = self.models.get(id(f))
        if m is not None and m[0] is f:
            return m[1](self, args, kwargs)
        if isinstance(f, types.BuiltinMethodType) and isinstance(
                f.__self__, type):
            for g, model in self.class_methods:
                if g == f:
                    return model(self, args, kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            return self.make_exc(f, args)
        if not callable(f):
            self.throw(TypeError, "'%s' object is not callable" %
                       type(f).__name__)
        if isinstance(f, types.MethodType) and isinstance(
                f.__self__, re.Pattern):
            return pat_method(f.__name__)(self, [f.__self__] + args, kwargs)
        if isinstance(f, types.BuiltinMethodType) and isinstance(
                f.__self__, re.Pattern) and f.__name__ in (
                    'match', 'search', 'fullmatch', 'findall', 'finditer',
                    'sub'):
            return pat_method(f.__name__)(self, [f.__self__] + args, kwargs)
        if isinstance(f, (types.MethodDescriptorType,
                          types.WrapperDescriptorType)):
            return self.unbound(f.__objclass__, f.__name__, args, kwargs)
        mod = getattr(f, '__module__', None) or ''
        if mod.split('.')[0] in ('time', 'random', 'os', 'subprocess',
                                 'socket', 'threading'):
            self.run.impure.append((mod, self.where(), self.fname()))
            return self.top('call of %s' % mod)
        return self.native(f, args, kwargs)
