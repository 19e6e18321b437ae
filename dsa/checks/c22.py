"""C22: nothing observable depends on the order of a set or a hash."""
from itertools import combinations, permutations, product
from ..explore import Case, Lab, Undecided, Violation
from ..values import *
from .common import *
from . import c03, c04, c05, disc
from .ops import *

EXPLAIN = (
    'Relational (two-run) abstract interpretation: every scenario runs '
    'three times in one partition on copies of the same abstract inputs, '
    'with the iteration order of every set as inserted, reversed and '
    'rotated and with hashes ordered the other way round; value, order of '
    'its parts, text, exception class and message must agree.  A scenario '
    'that reads no set of two elements or more and orders no hashes in its '
    'first run needs no other run.  Scenarios: every operation on every '
    'class of datashape with unknown parameters, every form of text, every '
    'constructor with every kind of argument, duplicate names in every '
    'arrangement, discovery of sets and of mappings in lists, unification, '
    'promotion, type sets, and the messages of the assertion.  The package '
    'is also imported under the three orders and its answers compared.')
FLOOR = {'quick': 5000, 'thorough': 6000}
HISTORIES = False
ORDERS = ('ins', 'rev', 'rot')
DISC = 'datashape.discovery'


def under(L, order, f):
    i = L.i
    old, i.order = i.order, order
    try:
        return f()
    finally:
        i.order = old


def flat(L, v, depth=0):
    """Consume iterators."""
    v = L.i.res(v)
    if isinstance(v, (VIter, VView)):
        return tuple(L.items(v))
    return v


def outcome(L, order, f):
    def g():
        try:
            return 'ret', flat(L, f())
        except Raised as e:
            return 'raise', e.exc
    return under(L, order, g)


def hash_text(L, v):
    """Does the text contain a hash of text?"""
    return isinstance(v, Tmpl) and any(
        isinstance(p, Hole) and isinstance(L.i.res(p.val), HashTerm) and
        p.val.op != 'id' for p in v.parts)


def strict(L, a, b, depth=0):
    """The same value, parts in the same order."""
    a, b = L.i.res(a), L.i.res(b)
    if a is b or depth > 8:
        return True
    if isinstance(a, (tuple, VList)) or isinstance(b, (tuple, VList)):
        if L.i.type_of(a) is not L.i.type_of(b):
            return False
        x, y = L.items(a), L.items(b)
        return len(x) == len(y) and all(strict(L, p, q, depth + 1)
                                        for p, q in zip(x, y))
    if isinstance(a, VDict) and isinstance(b, VDict):
        return strict(L, tuple(a.d.values()), tuple(b.d.values()), depth + 1)
    if isinstance(a, (VBound, VFunc, VBuiltin, VIter, VView, VPartial)) and \
            type(a) is type(b):
        return True
    if isinstance(a, HashTerm) or isinstance(b, HashTerm):
        return same_hash(L, a, b)
    if isinstance(a, VObj) and isinstance(b, VObj):
        if a.cls is not b.cls:
            return False
        if not isinstance(a.cls, VClass):
            return True
        if not L.isinst(a, 'Mono', 'TypeSet'):
            return True
        if not L.eq(a, b):
            return False
        for f in (L.i.str_, L.i.repr_):
            x, y = c03.text_outcome(L, f, a), c03.text_outcome(L, f, b)
            if x[0] != y[0] or x[0] == 'ret' and not L.eq(x[1], y[1]):
                return False
        for n in ('names', 'parameters', 'fields', 'categories'):
            x, y = c03.attr_outcome(L, a, n), c03.attr_outcome(L, b, n)
            if x[0] == 'ret' == y[0] and not strict(L, x[1], y[1],
                                                    depth + 1):
                return False
        return True
    return L.eq(a, b)


def told(L, o):
    return L.show(o[1]) if o[0] == 'ret' else L.exc_text(o[1])


def compare(L, what, a, b):
    if a[0] != b[0]:
        raise Violation('%s depends on the order of a set: %s or %s' % (
            what, told(L, a), told(L, b)))
    if a[0] == 'raise':
        good = a[1].cls is b[1].cls and strict(
            L, a[1].attrs.get('args', ()), b[1].attrs.get('args', ()))
    else:
        good = strict(L, a[1], b[1])
    L.check(good, '%s depends on the order of a set: %s or %s' % (
        what, told(L, a), told(L, b)))


def relational(what, inputs, call):
    """call(L, *inputs(L)) must give the same under every order."""
    def f(L):
        run = L.i.run
        args = inputs(L) if inputs else ()
        keep = clone(L, tuple(args))
        before = run.unordered
        first = outcome(L, 'ins', lambda: call(L, *clone(L, keep)))
        if first[0] == 'ret' and hash_text(L, first[1]):
            raise Violation('%s shows a hash: %s' % (what, told(L, first)))
        texts(L, first)
        if run.unordered == before:
            return
        for o in ORDERS[1:]:
            other = outcome(L, o, lambda: call(L, *clone(L, keep)))
            compare(L, what, first, other)
    return f


def texts(L, o):
    """Printing reads the parts of the result (and so their sets)."""
    if o[0] == 'ret' and isinstance(o[1], VObj) and \
            isinstance(o[1].cls, VClass) and L.isinst(o[1], 'TypeSet'):
        for f in (L.i.str_, L.i.repr_):
            c03.text_outcome(L, f, o[1])


# ------------------------------------------------------------- the scenarios

def sets(L, frozen=False):
    """Sets of scalars, mixed or not, and sets of tuples."""
    ks = [k for k in disc.SCALAR if k not in ()]
    for n in (2, 3):
        for c in combinations(ks, n):
            if n == 3 and not set(c) & {'int', 'none', 'float', 'date'}:
                continue
            yield c


def set_of(L, kinds, frozen=False):
    vs = [disc.make(L, k, 'v%d' % n) for n, k in enumerate(kinds)]
    return L.i.set(vs, frozen)


def tuples_set(L, rows):
    return L.i.set([tuple(disc.make(L, k, 'v%d.%d' % (n, m))
                          for m, k in enumerate(r))
                    for n, r in enumerate(rows)], False)


def dict_lists():
    """Lists of mappings that share some keys."""
    rows = [('b', 'int'), ('a', 'text'), ('d', 'none'), ('c', 'float')]
    for k in (1, 2, 3, 4):
        for sub in combinations(rows, k):
            yield [('dict', list(sub))]
            yield [('dict', rows), ('dict', list(sub))]
            yield [('dict', list(sub)), ('dict', rows)]
            yield [('dict', rows), 'none', ('dict', list(sub))]
            yield [('ordered', rows), ('ordered', list(sub))]
            yield [('dict', list(sub)), ('dict', [(n, 'none')
                                                  for n, _ in sub])]
    yield [('dict', rows[:2]), ('dict', rows[2:])]
    yield [('dict', rows[:3]), ('dict', rows[1:])]
    yield [('dict', rows[:2]), ('dict', rows[1:3]), ('dict', rows[2:])]
    yield [[('dict', rows[:2])], [('dict', rows[1:3])]]
    for k in (5, 6, 8, 9, 12, 17):
        wide = [('k%d' % (7 * j % k if k % 7 else 5 * j % k),
                 ('int', 'text', 'none', 'float')[j % 4]) for j in range(k)]
        yield [('dict', wide)]
        yield [('dict', wide), ('dict', wide[1:])]
        yield [('dict', wide[::2]), ('dict', wide[::-1])]
        yield [('dict', wide[:k // 2]), ('dict', wide[k // 2:])]
        yield [('ordered', wide), ('ordered', wide[:-1])]


def unions():
    T = ['int64', 'float64', 'string', 'date', 'bool', 'null', 'complex128',
         'time', 'int32', 'timedelta']
    for n in (1, 2, 3):
        for ts in product(T[:6] if n == 3 else T, repeat=n):
            yield ts


def duplicates():
    names = ['gamma', 'alpha', 'beta', 'delta']
    out = []
    for n in (4, 5, 6):
        for pat in product(range(4), repeat=n):
            k = sum(1 for x in set(pat) if pat.count(x) > 1)
            if k >= 2 and list(dict.fromkeys(pat)) == sorted(set(pat)):
                out.append([names[p] for p in pat])
    return out


def typesets(L):
    S = 'datashape.typesets'
    return dict(
        (n, (lambda L, n=n: L.api(n, S))) for n in (
            'boolean', 'complexes', 'floating', 'integral', 'numeric',
            'real', 'signed', 'unsigned', 'scalar'))


def recs(n, order=None, extra=()):
    def f(L):
        names = ['zz', 'aa', 'mm', 'bb', 'qq'][:n]
        fields = [(x, L.api('int32')) for x in names]
        if order:
            fields = [fields[k] for k in order]
        fields += [(x, L.api('string')) for x in extra]
        return L.new('Record', L.list(fields))
    return f


def assertion(a, b, kw):
    def call(L, x, y):
        return L.i.call(L.api('assert_dshape_equal',
                              'datashape.util.testing'), [x, y], dict(kw))
    return lambda L: (a(L), b(L)), call


def concrete(L):
    """Scenarios without unknowns, for comparing imports."""
    for t in c05.TEXTS:
        yield 'parsing %r' % t, lambda L, t=t: L.i.call(
            L.api('dshape'), [t], {})
    for ts in unions():
        yield 'lowest_common_dshape %s' % (ts,), lambda L, ts=ts: L.i.call(
            L.api('lowest_common_dshape', DISC),
            [L.list([disc.ty(L, t) for t in ts])], {})
        yield 'unite_base %s' % (ts,), lambda L, ts=ts: L.i.call(
            L.api('unite_base', DISC),
            [L.list([disc.ty(L, t) for t in ts])], {})
    for v in list(disc.SCALAR) + list(dict_lists()):
        yield 'discover %s' % disc.name(v), lambda L, v=v: L.i.call(
            L.api('discover'), [disc.make(L, v)], {})
    for n in typesets(L):
        S = 'datashape.typesets'
        for what, g in (('repr', lambda L, x: L.i.repr_(x)),
                        ('str', lambda L, x: L.i.str_(x))):
            yield '%s of %s' % (what, n), lambda L, n=n, g=g: g(
                L, L.api(n, S))
        for m in ('int8', 'uint16', 'float32', 'bool_', 'complex64',
                  'string', 'null'):
            yield '%s in %s' % (m, n), lambda L, n=n, m=m: L.i.contains(
                L.api(n, S), L.api(m))
    for a in SCALARS + SINGLES:
        for op in ('maxtype', 'supertype'):
            yield '%s of %s' % (op, a), lambda L, a=a, op=op: OPS[op](
                L, L.api(a))
        for b in SCALARS:
            yield 'promote %s %s' % (a, b), lambda L, a=a, b=b: L.i.call(
                L.api('promote'), [L.api(a), L.api(b)], {})


def canon(L, o):
    """Text of an outcome that can be compared between imports."""
    if o[0] == 'raise':
        return 'raises ' + L.exc_text(o[1])
    v = o[1]
    if isinstance(v, VObj) and isinstance(v.cls, VClass) and \
            L.isinst(v, 'Mono', 'TypeSet'):
        return '%s %s %s' % (cls_name(v.cls), L.show(L.str(v)),
                             L.show(L.repr(v)))
    return L.show(v)


_OTHERS = {}


def others(L):
    """The package imported under the other orders."""
    if L.root not in _OTHERS:
        _OTHERS[L.root] = [Lab(L.root, '', o) for o in ORDERS[1:]]
    return _OTHERS[L.root]


def answers(lab, name, call):
    out = []

    def f(L):
        out.append(canon(L, outcome(L, 'ins', lambda: call(L))))
    r = lab.paths(Case(name, f, relaxed=True, max_paths=60, max_undecided=2))
    if r['undecided']:
        raise Undecided(str(r['undecided'][0]))
    for b in r['bad']:
        out.append('breaks: ' + b['msg'])
    return out


def imports(name, call):
    def f(L):
        i = L.i
        order, relaxed = i.order, i.relaxed
        base = outcome(L, 'ins', lambda: call(L))
        if L.i.run.taken:
            raise Undecided('depends on an unknown')
        want = canon(L, base)
        for lab in others(L):
            got = answers(lab, name, call)
            if len(got) != 1:
                raise Undecided('depends on an unknown')
            L.check(got[0] == want, '%s depends on the order of a set during '
                    'import: %s or %s' % (name, want, got[0]))
    return f


def cases(L, tier):
    deep = tier == 'thorough'
    others(L)
    one = lambda v: (lambda L: (v(L),))
    # what sets are used for
    for names in duplicates():
        nm = '.'.join(n[0] for n in names)
        yield Case('Record with names %s' % nm, relational(
            'Record with names %s' % names,
            lambda L, ns=names: (L.list([(n, L.api('int32')) for n in ns]),),
            lambda L, a: L.i.call(L.api('Record'), [a], {})))
        if len(names) == 4:
            t = '{%s}' % ', '.join('%s: int32' % n for n in names)
            yield Case('text with names %s' % nm, relational(
                'parsing %s' % t, None,
                lambda L, t=t: L.i.call(L.api('dshape'), [t], {})),
                relaxed=True)
            yield Case('brackets with names %s' % nm, relational(
                'R[%s]' % names, None,
                lambda L, ns=names: L.i.getitem(L.api('R'), tuple(
                    slice(n, L.api('int32')) for n in ns))))
    for kinds in sets(L):
        for frozen in (False, True):
            nm = ('frozen' if frozen else '') + 'set of %s' % ', '.join(kinds)
            yield Case('discover a %s' % nm, relational(
                'discover of a ' + nm,
                lambda L, ks=kinds, fz=frozen: (set_of(L, ks, fz),),
                lambda L, a: L.i.call(L.api('discover'), [a], {})),
                relaxed=True, max_paths=300)
    for rows in product((('int', 'text'), ('float', 'text'), ('text', 'int'),
                         ('int',), ('none', 'text')), repeat=2):
        yield Case('discover a set of %s' % (rows,), relational(
            'discover of a set of tuples',
            lambda L, rs=rows: (tuples_set(L, rs),),
            lambda L, a: L.i.call(L.api('discover'), [a], {})),
            relaxed=True, max_paths=300)
    for kinds in (('int', 'text'), ('int', 'none', 'text'), ('int', 'date')):
        yield Case('discover a list of sets of %s' % (kinds,), relational(
            'discover of a list of sets of %s' % (kinds,),
            lambda L, ks=kinds: (L.list([set_of(L, ks), set_of(L, ks)]),),
            lambda L, a: L.i.call(L.api('discover'), [a], {})),
            relaxed=True, max_paths=300)
        for sch in ('var * int64', 'var * ?int64', '2 * string'):
            yield Case('validate a set of %s against %s' % (kinds, sch),
                       relational(
                'validate', lambda L, ks=kinds: (set_of(L, ks),),
                lambda L, a, sch=sch: L.i.call(L.api('validate'), [sch, a],
                                               {})), relaxed=True)
    for v in dict_lists():
        nm = disc.name(v)
        yield Case('discover %s' % nm, relational(
            'discover of %s' % nm, lambda L, v=v: (disc.make(L, v),),
            lambda L, a: L.i.call(L.api('discover'), [a], {})),
            relaxed=True)
    for ts in unions():
        for fn in ('lowest_common_dshape', 'unite_base',
                   'unite_identical', 'unite_merge_dimensions'):
            yield Case('%s %s' % (fn, ','.join(ts)), relational(
                '%s of %s' % (fn, ts),
                lambda L, ts=ts: (L.list([disc.ty(L, t) for t in ts]),),
                lambda L, a, fn=fn: L.i.call(L.api(fn, DISC), [a], {})),
                relaxed=True)
    ts = typesets(L)
    for a in ts:
        for what, g in (
                ('repr', lambda L, x: L.i.repr_(x)),
                ('str', lambda L, x: L.i.str_(x)),
                ('hash', lambda L, x: L.i.hash_(x)),
                ('parameters', lambda L, x: L.attr(x, 'parameters')),
                ('types', lambda L, x: L.attr(x, 'types'))):
            yield Case('%s of type set %s' % (what, a), relational(
                '%s of type set %s' % (what, a), one(ts[a]), g))
        for b in ts:
            yield Case('union of %s and %s' % (a, b), relational(
                'union of %s and %s' % (a, b), None,
                lambda L, x=ts[a], y=ts[b]: (
                    L.i.repr_(L.i.binop('|', x(L), y(L))),
                    L.i.contains(L.i.binop('|', x(L), y(L)), L.api('int8')),
                    L.i.compare('==', x(L), y(L)),
                    L.i.compare('==', L.i.binop('|', x(L), y(L)),
                                L.i.binop('|', y(L), x(L))))))
            yield Case('union by name of %s and %s' % (a, b), relational(
                'union of %s and %s' % (a, b), None,
                lambda L, x=ts[a], y=ts[b]: L.i.repr_(
                    L.meth(x(L), 'union', y(L))
                    if c03.attr_outcome(L, x(L), 'union')[0] == 'ret'
                    else None)))
    for c in combinations(('int8', 'uint8', 'float32', 'bool_', 'string',
                           'complex64'), 3):
        for p in list(permutations(c))[:2]:
            yield Case('unnamed type set of %s' % ', '.join(p), relational(
                'unnamed type set of %s' % ', '.join(p),
                lambda L, p=p: (L.i.call(L.api('TypeSet'),
                                         [L.api(n) for n in p], {}),),
                lambda L, x: (L.i.str_(x), L.i.repr_(x),
                              L.i.contains(x, L.api('int8')))))
    # messages of the assertion
    for n in (1, 2, 3, 4):
        for kw in ((), (('check_record_order', False),)):
            for perm in list(permutations(range(n)))[:6]:
                i, c = assertion(recs(n), recs(n, perm), kw)
                yield Case('assert permuted record %s %s' % (perm, kw),
                           relational('the assertion', i, c))
            for more in ((), ('x1',), ('x1', 'y1'), ('x1', 'y1', 'z1')):
                for less in ((), ('x2',), ('x2', 'y2'), ('x2', 'y2', 'z2')):
                    i, c = assertion(recs(n, None, more),
                                     recs(n, None, less), kw)
                    yield Case('assert records with %s and %s beside %d %s'
                               % (more, less, n, kw),
                               relational('the assertion', i, c))
    # everything else
    for t in c05.TEXTS:
        yield Case('parsing %r' % t, relational(
            'parsing %r' % t, None,
            lambda L, t=t: L.i.call(L.api('dshape'), [t], {})), relaxed=True)
    for c in c05.CTORS:
        for a in c05.CTOR_ARGS:
            yield Case('%s of %s' % (c, a), relational(
                '%s of %s' % (c, a), lambda L, a=a: (c05.CTOR_ARGS[a](L),),
                lambda L, ak, c=c: L.i.call(L.api(c), list(ak[0]),
                                            dict(ak[1]))), relaxed=True,
                max_undecided=4)
    for vn, v in list(c04.values(L)):
        for op in OPS:
            yield Case('%s on %s' % (op, vn), relational(
                '%s on %s' % (op, vn), one(v), OPS_CALL(op)),
                relaxed=True, max_paths=4000 if deep else 150,
                max_undecided=40 if deep else 4)
    for name, call in concrete(L):
        yield Case('import, %s' % name, imports(name, call), relaxed=True)


def OPS_CALL(op):
    return lambda L, x: OPS[op](L, x)
