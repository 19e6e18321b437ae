"""Every public operation on a datashape, as host functions of (L, x)."""
import datetime as dt
from ..values import *
from .common import *
from . import c03


def call(name, module='datashape'):
    def f(L, x, *a, **k):
        return L.i.call(L.api(name, module), [x] + list(a), k)
    return f


def meth(name, *a):
    return lambda L, x: L.i.call(L.i.getattr_(x, name), list(a), {})


def index(key):
    return lambda L, x: L.i.getitem(L.i.getattr_(x, 'subshape'),
                                    key(L) if callable(key) else key)


def other(L):
    """Some other datashape."""
    return L.new('DataShape', L.new('Fixed', L.int('m', 0)), L.api('int32'))


def record(L):
    return L.new('Record', L.list([('a', L.api('int32')),
                                   ('b', L.api('string'))]))


def views(L, x):
    return tuple(c03.attr_outcome(L, x, n) for n in c03.public(L, x.cls))


def iterate(L, x):
    return L.i.as_list(x)


def check_equal(**kw):
    def f(L, x):
        return L.i.call(L.api('assert_dshape_equal',
                              'datashape.util.testing'), [x, x], kw)
    return f


def check_other(L, x):
    return L.i.call(L.api('assert_dshape_equal', 'datashape.util.testing'),
                    [x, other(L)], {})


def check_other2(L, x):
    return L.i.call(L.api('assert_dshape_equal', 'datashape.util.testing'),
                    [record(L), x], {})


OPS = {
    'x == other': lambda L, x: L.i.compare('==', x, other(L)),
    'other == x': lambda L, x: L.i.compare('==', other(L), x),
    'x != other': lambda L, x: L.i.compare('!=', x, other(L)),
    'x == 3': lambda L, x: L.i.compare('==', x, 3),
    'x == record': lambda L, x: L.i.compare('==', x, record(L)),
    'hash': lambda L, x: L.i.hash_(x),
    'str': lambda L, x: L.i.str_(x),
    'repr': lambda L, x: L.i.repr_(x),
    'pprint': call('pprint'),
    'narrow pprint': lambda L, x: L.i.call(L.api('pprint'), [x],
                                           {'width': 5}),
    'len': lambda L, x: L.i.call(L.i.builtins['len'], [x], {}),
    'iteration': iterate,
    'x[0]': lambda L, x: L.i.getitem(x, 0),
    'x[-1]': lambda L, x: L.i.getitem(x, -1),
    'x[:1]': lambda L, x: L.i.getitem(x, slice(None, 1)),
    'x["f"]': lambda L, x: L.i.getitem(x, 'f'),
    'attributes': views,
    'subarray 0': meth('subarray', 0),
    'subarray 1': meth('subarray', 1),
    'subshape[0]': index(0),
    'subshape[:]': index(slice(None)),
    'subshape[1:]': index(slice(1, None)),
    'subshape["f"]': index('f'),
    'subshape[list]': index(lambda L: L.list([0])),
    'subshape[names]': index(lambda L: L.list(['f'])),
    'subshape[None, 0]': index((None, 0)),
    'subshape[0, "f"]': index((0, 'f')),
    'subshape[:, list]': index(lambda L: (slice(None), L.list(['f']))),
    '3 * x': lambda L, x: L.i.binop('*', 3, x),
    'text * x': lambda L, x: L.i.binop('*', 'var', x),
    'x * other': lambda L, x: L.i.binop('*', x, other(L)),
    'var * x': lambda L, x: L.i.binop('*', L.api('var'), x),
    'x * text': lambda L, x: L.i.binop('*', x, 'int32'),
    'x * 3': lambda L, x: L.i.binop('*', x, 3),
    'info': meth('info'),
    'to_numpy': call('to_numpy'),
    'to_numpy_dtype': call('to_numpy_dtype'),
    'x.to_numpy_dtype': meth('to_numpy_dtype'),
    'promote with int': lambda L, x: L.i.call(
        L.api('promote'), [x, L.api('float64')], {}),
    'promote to x': lambda L, x: L.i.call(
        L.api('promote'), [L.new('Option', L.api('int32')), x], {}),
    'promote with itself': lambda L, x: L.i.call(L.api('promote'), [x, x],
                                                 {}),
    'optionify': lambda L, x: L.i.call(L.api('optionify'), [
        x, L.new('Option', L.api('int32')), x], {}),
    'maxtype': call('maxtype'),
    'supertype': call('supertype', 'datashape.typesets'),
    'x in numeric': lambda L, x: L.i.contains(L.api('numeric'), x),
    'matches_typeset': lambda L, x: L.i.call(
        L.api('matches_typeset'), [(x,), (L.api('numeric'),)], {}),
    'dshape': call('dshape'),
    'dshapes': call('dshapes'),
    'DataShape': call('DataShape'),
    'Option': call('Option'),
    'Record': lambda L, x: L.i.call(L.api('Record'), [L.list([('a', x)])],
                                    {}),
    'Tuple': lambda L, x: L.i.call(L.api('Tuple'), [L.list([x])], {}),
    'Map': lambda L, x: L.i.call(L.api('Map'), [x, x], {}),
    'Function': lambda L, x: L.i.call(L.api('Function'), [x, x], {}),
    'Categorical': lambda L, x: L.i.call(
        L.api('Categorical'), [L.list(['a']), x], {}),
    'Units': lambda L, x: L.i.call(L.api('Units'), ['m', x], {}),
    'Ellipsis': lambda L, x: L.i.call(L.api('Ellipsis'), [x], {}),
    'R[...]': lambda L, x: L.i.getitem(L.api('R'), slice('a', x)),
    'cat_dshapes': lambda L, x: L.i.call(L.api('cat_dshapes'),
                                         [L.list([x, x])], {}),
    'has_var_dim': call('has_var_dim'),
    'has_ellipsis': call('has_ellipsis'),
    'collect': lambda L, x: L.i.call(
        L.api('collect', 'datashape.util'),
        [VBuiltin('pred', lambda i, a, k: True), x], {}),
    'has': lambda L, x: L.i.call(L.api('has', 'datashape.util'),
                                 [L.api('Var'), x], {}),
    'validate row': lambda L, x: L.i.call(
        L.api('validate'), [x, L.list([1, 2])], {}),
    'validate dict': lambda L, x: L.i.call(
        L.api('validate'), [x, L.dict([('f', 1)])], {}),
    'validate int': lambda L, x: L.i.call(L.api('validate'), [x, 3], {}),
    'validate date': lambda L, x: L.i.call(
        L.api('validate'), [x, Sym(dt.date, 'd')], {}),
    'issubschema': lambda L, x: L.i.call(L.api('issubschema'), [x, other(L)],
                                         {}),
    'issubschema of': lambda L, x: L.i.call(L.api('issubschema'),
                                            [other(L), x], {}),
    'well-formedness': call('validate', 'datashape.validation'),
    'assertion': check_equal(),
    'lax assertion': check_equal(
        check_dim=False, check_tz=False, check_timedelta_unit=False,
        check_str_encoding=False, check_str_fixlen=False,
        check_record_order=False),
    'assertion with other': check_other,
    'assertion of other': check_other2,
    'discover': lambda L, x: L.i.call(L.api('discover'), [x], {}),
    'unite': lambda L, x: L.i.call(
        L.api('unite_base', 'datashape.discovery'),
        [L.list([x, x, L.api('null')])], {}),
    'unite merge': lambda L, x: L.i.call(
        L.api('unite_merge_dimensions', 'datashape.discovery'),
        [L.list([x, L.i.binop('*', 3, L.api('int32'))])], {}),
    'unpack': call('unpack', 'datashape.discovery'),
}
for _p in ('isscalar', 'isrecord', 'isdimension', 'ishomogeneous', 'isfixed',
           'istabular', 'iscollection', 'isnumeric', 'isreal', 'isboolean',
           'isdatelike'):
    OPS[_p] = call(_p, 'datashape.predicates')


def perform(L, name, x):
    try:
        return 'ret', L.i.res(OPS[name](L, x))
    except Raised as e:
        return 'raise', e.exc


# ------------------------------------------------------------- heap snapshots

def clone(L, v, memo=None):
    """A copy of the heap below v; classes and functions are shared."""
    memo = {} if memo is None else memo
    v = L.i.res(v)
    if id(v) in memo:
        return memo[id(v)][1]
    if isinstance(v, tuple):
        if type(v) is not tuple:
            return v
        return tuple(clone(L, x, memo) for x in v)
    if isinstance(v, VObj):
        if not isinstance(v.cls, VClass):
            return v
        r = VObj(v.cls, L.i.run.rid)
        memo[id(v)] = (v, r)
        r.attrs = {k: clone(L, x, memo) for k, x in v.attrs.items()}
        r.payload = clone(L, v.payload, memo)
        return r
    if isinstance(v, VList):
        r = VList([], L.i.run.rid, v.pytype)
        memo[id(v)] = (v, r)
        r.items = [clone(L, x, memo) for x in v.items]
        return r
    if isinstance(v, VDict):
        r = VDict(L.i.run.rid, v.pytype, v.default)
        memo[id(v)] = (v, r)
        r.d = {h: (clone(L, a, memo), clone(L, b, memo))
               for h, (a, b) in v.d.items()}
        return r
    if isinstance(v, VSet):
        r = VSet(L.i.run.rid, v.frozen)
        memo[id(v)] = (v, r)
        r.d = {h: clone(L, a, memo) for h, a in v.d.items()}
        return r
    return v


def untouched(L, v, c, seen=None):
    """Is the heap below v what it was when c was cloned from it?"""
    seen = set() if seen is None else seen
    v, c = L.i.res(v), L.i.res(c)
    if v is c:
        return not isinstance(v, HeapVal) or isinstance(
            v, (VClass, VFunc, VModule, VDispatcher)) or \
            isinstance(v, VObj) and not isinstance(v.cls, VClass)
    if id(v) in seen:
        return True
    if isinstance(v, tuple):
        return (isinstance(c, tuple) and len(v) == len(c) and
                all(untouched(L, x, y, seen) for x, y in zip(v, c)))
    if type(v) is not type(c):
        return False
    if isinstance(v, VObj):
        seen.add(id(v))
        return (v.cls is c.cls and list(v.attrs) == list(c.attrs) and
                all(untouched(L, v.attrs[k], c.attrs[k], seen)
                    for k in v.attrs) and
                untouched(L, v.payload, c.payload, seen))
    if isinstance(v, VList):
        seen.add(id(v))
        return len(v.items) == len(c.items) and all(
            untouched(L, x, y, seen) for x, y in zip(v.items, c.items))
    if isinstance(v, VDict):
        seen.add(id(v))
        return len(v.d) == len(c.d) and all(
            untouched(L, a, p, seen) and untouched(L, b, q, seen)
            for (a, b), (p, q) in zip(v.d.values(), c.d.values()))
    if isinstance(v, VSet):
        seen.add(id(v))
        return len(v.d) == len(c.d) and all(
            untouched(L, a, p, seen)
            for a, p in zip(v.d.values(), c.d.values()))
    return L.i.key(v) == L.i.key(c)


def check_as_before(L, what, x, c):
    """x behaves like c, the copy taken before."""
    if untouched(L, x, c):
        return
    L.check(x.cls is c.cls, '%s: the class changed' % what)
    for a, b in ((x, c), (c, x)):
        L.check(L.eq(a, b) and not L.ne(a, b),
                '%s: the datashape was %s and became %s' % (
                    what, L.show(c), L.show(x)))
    L.check(same_hash(L, hash_of(L, x), hash_of(L, c)),
            '%s: the hash of %s changed' % (what, L.show(c)))
    for n, f in (('str', L.i.str_), ('repr', L.i.repr_)):
        c03.agree(L, '%s: %s' % (what, n), c03.text_outcome(L, f, c),
                  c03.text_outcome(L, f, x))
    for n in c03.public(L, x.cls):
        c03.agree(L, '%s: attribute %s' % (what, n),
                  c03.attr_outcome(L, c, n), c03.attr_outcome(L, x, n))


def shared(L):
    """The datashapes that the package itself holds."""
    out, seen = [], set()
    for m in ('datashape.coretypes', 'datashape.typesets',
              'datashape.discovery'):
        for n, v in L.mod(m).ns.items():
            if isinstance(v, VObj) and id(v) not in seen and \
                    isinstance(v.cls, VClass) and L.isinst(v, 'Mono'):
                seen.add(id(v))
                out.append((n, v))
    return out
