"""C04: datashapes never change."""
from ..explore import Case, Violation
from ..values import *
from .common import *
from . import c03, disc
from .ops import *

EXPLAIN = (
    'Effect and escape analysis by abstract interpretation with a heap: '
    'every public operation on every class of datashape with unknown '
    'parameters, alone, as datashape and inside every composite; the heap '
    'below the datashape, below the containers passed, and of every '
    'datashape the package shares is compared with a copy taken before, and '
    'where it differs (a cache) the observable behaviour must not.  Every '
    'constructor given mutable containers, and every list, dict or set '
    'returned by an attribute or operation, is then modified in every way '
    'and the datashape must answer as before.')
FLOOR = {'quick': 2000, 'thorough': 4000}
HISTORIES = False


def operation(build, op):
    def f(L):
        x = build(L)
        c = clone(L, x)
        sh = [(n, v, clone(L, v)) for n, v in shared(L)]
        before = len(L.i.run.muts)
        perform(L, op, x)
        what = '%s on %s' % (op, L.show(c))
        check_as_before(L, what, x, c)
        if len(L.i.run.muts) > before:
            for n, v, k in sh:
                check_as_before(L, '%s, seen in %s' % (what, n), v, k)
    return f


MODES = ['clear', 'append', 'replace']


def mutate(L, v, mode, depth=0):
    """Modify every container in v that a caller can reach.  Returns whether
    there was one."""
    v = L.i.res(v)
    done = False
    if depth > 4:
        return False
    if isinstance(v, (tuple, VList)):
        for x in list(L.i.as_list(v)):
            done |= mutate(L, x, mode, depth + 1)
    elif isinstance(v, VDict):
        for a, b in list(v.d.values()):
            done |= mutate(L, b, mode, depth + 1)
    if isinstance(v, VList):
        done = True
        if mode == 'clear':
            L.i.list_replace(v, [])
        elif mode == 'append':
            L.i.list_replace(v, list(v.items) + ['intruder'])
        else:
            L.i.list_replace(v, ['intruder'] * len(v.items))
    elif isinstance(v, VDict) and v.pytype is not __import__(
            'types').MappingProxyType:
        done = True
        if mode == 'clear':
            for k, _ in list(v.d.values()):
                L.i.dict_del(v, k)
        elif mode == 'append':
            L.i.dict_set(v, 'intruder', 1)
        else:
            for k, _ in list(v.d.values()):
                L.i.dict_set(v, k, 'intruder')
    elif isinstance(v, VSet) and not v.frozen:
        done = True
        if mode == 'append':
            L.i.set_add(v, 'intruder')
        else:
            for k in list(v.d.values()):
                L.i.set_del(v, k)
    return done


def answers(L, x):
    """Everything observable, frozen."""
    out = [('str', c03.text_outcome(L, L.i.str_, x)),
           ('repr', c03.text_outcome(L, L.i.repr_, x)),
           ('hash', ('ret', hash_of(L, x)))]
    for n in c03.public(L, x.cls):
        k, v = c03.attr_outcome(L, x, n)
        out.append(('attribute ' + n, (k, clone(L, v) if k == 'ret' else v)))
    return out


def check_answers(L, what, old, x):
    for (n, a), (_, b) in zip(old, answers(L, x)):
        if n == 'hash':
            L.check(same_hash(L, a[1], b[1]), '%s: the hash changed' % what)
        else:
            c03.agree(L, '%s: %s' % (what, n), a, b)


def returned(build, name, get, mode, warm):
    def f(L):
        x = build(L)
        twin = clone(L, x)
        old = answers(L, x) if warm else answers(L, twin)
        try:
            r = get(L, x)
        except Raised:
            return
        if not mutate(L, r, mode):
            return
        what = '%s of the result of %s of %s' % (mode, name, L.show(twin))
        check_answers(L, what, old, x)
        L.check(L.eq(x, twin) and L.eq(twin, x), '%s: it became %s' % (
            what, L.show(x)))
    return f


def built(name, make, mode):
    """make(L) -> (containers, function building the datashape)"""
    def f(L):
        args, ctor = make(L)
        keep = clone(L, args)
        x = ctor(L, *args)
        L.check(untouched(L, args, keep), '%s changes its argument' % name)
        twin = clone(L, x)
        old = answers(L, twin)
        mutate(L, args, mode)
        # the modified container comes first: a lazy datashape reads it now
        check_answers(L, '%s, then %s of the argument' % (name, mode), old, x)
        L.check(L.eq(x, twin) and L.eq(twin, x),
                '%s, then %s of the argument: it became %s' % (
                    name, mode, L.show(x)))
    return f


def pair(L, a, b, as_list):
    return L.list([a, b]) if as_list else (a, b)


def builders():
    R = lambda L, a: L.i.call(L.api('Record'), [a], {})
    for as_list in (False, True):
        yield ('Record of a list%s' % ' of lists' * as_list,
               lambda L, q=as_list: ((L.list([pair(L, 'a', sk(L), q),
                                              pair(L, 'b', L.api('int32'),
                                                   q)]),), R))
        yield ('Record of one field%s' % ' list' * as_list,
               lambda L, q=as_list: ((L.list([pair(L, 'a', sk(L), q)]),), R))
    yield 'Record of nothing', lambda L: ((L.list([]),), R)
    import collections
    yield 'Record of an ordered dict', lambda L: ((L.dict(
        [('a', sk(L)), ('b', L.api('int32'))],
        collections.OrderedDict),), R)
    yield 'Record of a view', lambda L: ((L.dict(
        [('a', sk(L)), ('b', L.api('int32'))]),),
        lambda L, d: R(L, L.i.call(L.i.getattr_(d, 'items'), [], {})))
    yield 'Tuple', lambda L: ((L.list([sk(L), L.api('int32')]),),
                              lambda L, a: L.i.call(L.api('Tuple'), [a], {}))
    yield 'empty Tuple', lambda L: ((L.list([]),),
                                    lambda L, a: L.i.call(L.api('Tuple'),
                                                          [a], {}))
    for t in (True, False):
        yield 'Categorical', lambda L, t=t: (
            (L.list(['a', 'b']),),
            lambda L, a: L.i.call(L.api('Categorical'), [a] + (
                [L.api('string'), True] if t else []), {}))
    for n in (5, 9, 12, 17):
        for typ in ('string', None):
            yield 'Categorical of %d %s' % (n, typ), lambda L, n=n, typ=typ: (
                (L.list(['c%d' % k for k in range(n)]),),
                lambda L, a: L.i.call(L.api('Categorical'), [a] + (
                    [L.api(typ), True] if typ else []), {}))
        yield 'Categorical of %d numbers' % n, lambda L, n=n: (
            (L.list(list(range(n))),),
            lambda L, a: L.i.call(L.api('Categorical'), [a], {}))
        yield 'Tuple of %d' % n, lambda L, n=n: (
            (L.list([sk(L) if k % 2 else L.api('int32')
                     for k in range(n)]),),
            lambda L, a: L.i.call(L.api('Tuple'), [a], {}))
        for q in (False, True):
            yield 'Record of %d%s' % (n, ' lists' * q), lambda L, n=n, q=q: (
                (L.list([pair(L, 'f%d' % k, sk(L) if k % 2 else
                              L.api('int32'), q) for k in range(n)]),), R)
        yield 'dshape of %d dimensions' % n, lambda L, n=n: (
            (L.list([k + 2 if k % 2 else L.new('Var') for k in range(n)] +
                    [sk(L)]),),
            lambda L, a: L.i.call(L.api('dshape'), [a], {}))
        yield 'subshape of a list of %d' % n, lambda L, n=n: (
            (L.list(list(range(n))),),
            lambda L, a: L.i.getitem(L.attr(L.new(
                'DataShape', L.new('Fixed', 50), sk(L)), 'subshape'), a))
        yield 'discover of %d' % n, lambda L, n=n: (
            (disc.make(L, ['int', 'text'] * n),),
            lambda L, a: L.i.call(L.api('discover'), [a], {}))
    yield 'dshape of a list', lambda L: (
        (L.list([3, L.new('Var'), sk(L)]),),
        lambda L, a: L.i.call(L.api('dshape'), [a], {}))
    yield 'cat_dshapes', lambda L: (
        (L.list([L.new('DataShape', L.new('Fixed', 2), sk(L))]),),
        lambda L, a: L.i.call(L.api('cat_dshapes'), [a], {}))
    yield 'from_numpy', lambda L: (
        (L.list([2, 3]),),
        lambda L, a: L.i.call(L.api('from_numpy'), [a, 'i4'], {}))
    yield 'subshape of a list', lambda L: (
        (L.list([0, 1]),),
        lambda L, a: L.i.getitem(L.attr(L.new(
            'DataShape', L.new('Fixed', 5), sk(L)), 'subshape'), a))
    yield 'fields of a list', lambda L: (
        (L.list(['b', 0]),),
        lambda L, a: L.i.getitem(L.attr(L.new('DataShape', record(L)),
                                        'subshape'), a))
    yield 'unite_base', lambda L: (
        (L.list([L.api('null'), L.api('int64'), L.api('int32')]),),
        lambda L, a: L.i.call(L.api('unite_base', 'datashape.discovery'),
                              [a], {}))
    yield 'unite_identical', lambda L: (
        (L.list([L.api('int32'), L.api('int32')]),),
        lambda L, a: L.i.call(L.api('unite_identical',
                                    'datashape.discovery'), [a], {}))
    for a, b in ((2, 3), (3, 2)):
        yield 'unite_merge_dimensions', lambda L, a=a, b=b: (
            (L.list([L.i.binop('*', a, L.api('int32')),
                     L.i.binop('*', b, L.api('int32'))]),),
            lambda L, a: L.i.call(L.api('unite_merge_dimensions',
                                        'datashape.discovery'), [a], {}))
    for v in (['int', 'int'], [['int', 'int'], ['int', 'none']],
              ('dict', [('b', 'int'), ('a', ['int'])]),
              ('ordered', [('b', 'int'), ('a', ['int'])]),
              [('dict', [('a', 'int')]), ('dict', [('b', 'text')])],
              [('dict', [('a', 'int')]), ('dict', [('a', 'none')])],
              ('tuple', [['int'], ['int', 'int']]), [['int'], ['int', 'int']],
              []):
        yield 'discover of %s' % disc.name(v), lambda L, v=v: (
            (disc.make(L, v),),
            lambda L, a: L.i.call(L.api('discover'), [a], {}))


def passive():
    """Calls that take a container and build no datashape."""
    def V(schema):
        return lambda L, a: L.i.call(L.api('validate'), [schema(L), a], {})
    rec = lambda L: L.new('DataShape', record(L))
    arr = lambda L: L.new('DataShape', L.new('Var'), record(L))
    for sn, s in (('record', rec), ('records', arr)):
        for v in (('dict', [('a', 'int'), ('b', 'text')]),
                  ('dict', [('a', 'int')]),
                  [('dict', [('a', 'int'), ('b', 'text')])],
                  ['int', 'text'], [['int', 'text'], ['int', 'text']],
                  ('dict', [('c', 'int')])):
            yield 'validate %s %s' % (sn, disc.name(v)), v, V(s)
    yield 'validate text schema', ['int', 'int'], V(lambda L: '2 * int64')
    yield 'validate schemas', ['int'], V(lambda L: ('int32', 'var * int64'))


def taken(name, v, call):
    def f(L):
        a = disc.make(L, v)
        keep = clone(L, a)
        try:
            call(L, a)
        except Raised:
            pass
        L.check(untouched(L, a, keep), '%s changes its argument to %s' % (
            name, L.show(a)))
    return f


GETTERS = ['collect', 'dshapes', 'attributes', 'info', 'x[:1]', 'iteration']


def values(L):
    for s in shapes():
        yield s.name, lambda L, s=s: s.make(L)[1]
    for name, wants, ctx in c03.contexts(L):
        if wants:
            yield 'skolem ' + name, lambda L, c=ctx: c(L, sk(L))
    ctxs = [c for c in c03.contexts(L) if c[0] in (
        'two dimensions', 'option', 'record', 'tuple', 'map')]
    for a, _, c1 in ctxs:
        for b, _, c2 in ctxs:
            yield '%s in %s' % (a, b), lambda L, c1=c1, c2=c2: c2(
                L, c1(L, sk(L)))
    for n in ('int32', 'string', 'datetime_', 'bool_'):
        yield n + ' optional', lambda L, n=n: L.new('Option', L.api(n))
        yield n + ' datashape', lambda L, n=n: L.new(
            'DataShape', L.new('Fixed', L.int('n', 0)), L.api(n))
    yield 'two fields', lambda L: L.new('Record', L.list(
        [('f', sk(L, 'X')), ('g', L.new('DataShape', L.new('Var'),
                                        L.api('int32')))]))
    yield 'rows', lambda L: L.new('DataShape', L.new('Var'), record(L))
    yield 'nested rows', lambda L: L.new(
        'DataShape', L.new('Fixed', L.int('n', 0)), L.new(
            'Record', L.list([('f', L.new('DataShape', L.new('Var'),
                                          record(L)))])))
    yield 'numeric set', lambda L: L.api('numeric')
    yield 'null record', lambda L: L.api('NullRecord', 'datashape.coretypes')


def cases(L, tier):
    deep = tier == 'thorough'
    vals = list(values(L))
    for vn, v in vals:
        for g in GETTERS:
            for mode in MODES:
                for warm in (False, True):
                    yield Case('%s of %s of %s%s' % (
                        mode, g, vn, ' asked before' if warm else ''),
                        returned(v, g, OPS[g], mode, warm), relaxed=True)
    for n, b in builders():
        for mode in MODES:
            yield Case('%s, %s' % (n, mode), built(n, b, mode), relaxed=True)
    for n, v, c in passive():
        yield Case(n, taken(n, v, c), relaxed=True)
    for vn, v in vals:
        for op in OPS:
            yield Case('%s on %s' % (op, vn), operation(v, op), relaxed=True,
                       max_paths=4000 if deep else 150,
                       max_undecided=40 if deep else 4)
