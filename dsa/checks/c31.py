"""C31: slicing a dimension of unknown length."""
from ..explore import Case, Violation
from ..values import *
from .common import *
from .c28 import REST, MAX

EXPLAIN = (
    'Abstract interpretation of subshape with slices of a dimension of '
    'unknown length (variable, type variable, ellipsis) with unknown bounds, '
    'partitioned by sign and order, and every step up to the limit with '
    'every remainder, and unknown larger steps.  Required: nothing is '
    'raised; the new dimension is variable, or is the number of positions '
    'the slice selects from every sequence that is long enough, where that '
    'is one number; it is that number when both bounds count from the front '
    'and the step is positive; the other dimensions and the measure are '
    'kept, also when the slice is part of a tuple of indices; a step of zero '
    'raises ValueError.')
FLOOR = {'quick': 300, 'thorough': 600}

FIRST = {
    'var': lambda L: L.new('Var'),
    'typevar': lambda L: L.new('TypeVar', L.text('S', UPPER)),
}


def plan(L, rs, re, order, step, rem):
    """Bounds of the given kinds and the number of positions selected from
    long sequences, or None if it depends on the length."""
    i = L.i
    add = lambda a, b: i.binop('+', a, b)
    sub = lambda a, b: i.binop('-', a, b)
    big = isinstance(step, str)
    neg = step == '-big' or isinstance(step, int) and step < 0
    k = abs(step) if isinstance(step, int) else 1
    # distance in the direction of the step, if the bounds are on one side
    covered = order == ('>' if neg else '<')
    count = 0
    if order == '=':
        dist = 0
    elif covered:
        if big:
            dist = L.int('gap', 1, MAX)
            count = 1
        else:
            q = L.int('q', 0 if rem else 1, MAX)
            dist = add(i.binop('*', q, k), rem)
            count = add(q, 1 if rem else 0)
    else:
        dist = L.int('gap', 1, MAX)
    up = order == '<'

    def bounds(base):
        # (start, stop) with the given order above base
        a = base
        b = add(base, dist)
        return (a, b) if up else (b, a)
    start = stop = None
    want = None
    if rs == 'front' and re == 'front':
        start, stop = bounds(L.int('base', 0, MAX))
        want = count
    elif rs == 'back' and re == 'back':
        x, y = bounds(L.int('base', 1, MAX))
        # further back is smaller
        start, stop = sub(0, y), sub(0, x)
        want = count
    elif rs == 'none' and re == 'front' and not neg:
        start, stop = None, dist
        want = count if order != '=' else 0
    elif rs == 'none' and re == 'back' and neg:
        # from the last one, -1
        start, stop = None, sub(-1, dist)
        want = count
    elif rs == 'back' and re == 'none' and not neg:
        start, stop = sub(0, dist), None
        want = count
    elif rs == 'front' and re == 'none' and neg:
        # positions start .. 0
        start, stop = sub(dist, 1), None
        want = count
    else:
        start = {'none': lambda: None, 'front': lambda: L.int('start', 0, MAX),
                 'back': lambda: L.int('start', -MAX, -1)}[rs]()
        stop = {'none': lambda: None, 'front': lambda: L.int('stop', 0, MAX),
                'back': lambda: L.int('stop', -MAX, -1)}[re]()
        if rs == 'front' and re == 'back' and neg or \
                rs == 'back' and re == 'front' and not neg:
            want = 0        # too far apart in a long sequence
    if big:
        far = add(dist, L.int('more', 1, MAX))
        if rs == 'front' and re == 'none' and neg:
            far = add(far, 1)
        step = sub(0, far) if neg else far
    return start, stop, step, want


def orders(rs, re, neg):
    same = (rs, re) in (('front', 'front'), ('back', 'back'))
    if same:
        return '<=>'
    if (rs, re, neg) in (('none', 'front', False), ('back', 'none', False)):
        return '<=' if rs == 'none' else '<'
    if (rs, re, neg) in (('none', 'back', True), ('front', 'none', True)):
        return '>=' if rs == 'none' else '>'
    return '-'


def sliced(first, rs, re, order, step, rem, rest, form):
    def f(L):
        start, stop, st, want = plan(L, rs, re, order, step, rem)
        tail = REST[rest](L)
        s = L.i.make_slice(start, stop, st)
        if form == 'second':
            ds = L.new('DataShape', L.new('Fixed', 7), FIRST[first](L), *tail)
            index = (L.int('i', 0, 6), s)
        elif form == 'tuple':
            ds = L.new('DataShape', FIRST[first](L), *tail)
            index = (s,)
        elif form == 'before':
            ds = L.new('DataShape', FIRST[first](L), L.new('Fixed', 3), *tail)
            index = (s, 1)
        else:
            ds = L.new('DataShape', FIRST[first](L), *tail)
            index = s
        what = '%s.subshape[%s]' % (L.show(ds), L.show(index))
        try:
            got = L.i.res(L.i.getitem(L.attr(ds, 'subshape'), index))
        except Raised as e:
            raise Violation('%s raises %s' % (what, L.exc_text(e.exc)))
        L.check(L.isinst(got, 'DataShape'), '%s is %s' % (what, L.show(got)))
        ps = L.items(L.attr(got, 'parameters'))
        d = L.i.res(ps[0])
        L.check(L.eq(L.new('DataShape', *ps[1:]),
                     L.new('DataShape', *tail)) and
                len(ps) == 1 + len(tail),
                '%s is %s' % (what, L.show(got)))
        neg = step == '-big' or isinstance(step, int) and step < 0
        if L.isinst(d, 'Var'):
            L.check(not (re == 'front' and rs in ('front', 'none') and
                         not neg),
                    '%s is %s although it selects %s' % (
                        what, L.show(got), L.show(want)))
            return
        L.check(L.isinst(d, 'Fixed'), '%s is %s' % (what, L.show(got)))
        if want is None:
            raise Violation('%s is %s although the number of elements '
                            'depends on the length' % (what, L.show(got)))
        L.check(L.eq(L.attr(d, 'val'), want), '%s is %s, not %s elements' % (
            what, L.show(got), L.show(want)))
    return f


def zero_step(first):
    def f(L):
        ds = L.new('DataShape', FIRST[first](L), sk(L, 'M'))
        s = L.i.make_slice(L.pick('start', [None, 1, 0, -2]),
                           L.pick('stop', [None, 4, 0, -1]), 0)
        try:
            got = L.i.getitem(L.attr(ds, 'subshape'), s)
        except Raised as e:
            L.check(L.exc_is(e.exc, ValueError), 'a step of zero raises %s' %
                    L.exc_text(e.exc))
        else:
            raise Violation('a step of zero gives %s' % L.show(got))
    return f


def long_counts(s, n):
    """Numbers of positions in sequences of several large lengths."""
    return {len(range(m)[s]) for m in (n, n + 1, n + 2, n + 6)}


def constant(first, start, stop):
    def f(L):
        t = L.api('int32')
        for step in (None, 1, 2, 3, 4, 7, -1, -2, -3, -4, -7):
            s = slice(start, stop, step)
            ds = L.new('DataShape', FIRST[first](L), t)
            what = '%s.subshape[%s]' % (L.show(ds), s)
            try:
                got = L.i.res(L.i.getitem(L.attr(ds, 'subshape'), s))
            except Raised as e:
                raise Violation('%s raises %s' % (what, L.exc_text(e.exc)))
            d = L.i.res(L.items(L.attr(got, 'parameters'))[0])
            if L.isinst(d, 'Var'):
                continue
            ok = long_counts(s, 1000)
            L.check(len(ok) == 1 and L.isinst(d, 'Fixed') and
                    L.eq(L.attr(d, 'val'), min(ok)),
                    '%s is %s, but long sequences have %s' % (
                        what, L.show(got), sorted(ok)))
    return f


def cases(L, tier):
    deep = tier == 'thorough'
    steps = [None, 1, -1, 2, -2, 3, -3, 'big', '-big']
    if deep:
        steps += [4, -4, 5, -5, 7, -7, 10, -10]
    kinds = ['none', 'front', 'back']
    for rs in kinds:
        for re in kinds:
            for step in steps:
                neg = step == '-big' or isinstance(step, int) and step < 0
                for order in orders(rs, re, neg):
                    rems = range(abs(step) if isinstance(step, int) and
                                 order in '<>' else 1)
                    for rem in rems:
                        for first in FIRST:
                            yield Case('%s from %s to %s%s step %s rest %d' % (
                                first, rs, re, order, step, rem),
                                sliced(first, rs, re, order, step, rem,
                                       'element', 'bare'), max_undecided=4)
    for rs, re, order in (('front', 'front', '<'), ('front', 'front', '>'),
                          ('none', 'front', '<'), ('none', 'none', '-'),
                          ('front', 'none', '-'), ('back', 'back', '<')):
        for step in (None, 2):
            for rest in REST:
                for form in ('bare', 'tuple', 'second', 'before'):
                    yield Case('var from %s to %s%s step %s %s %s' % (
                        rs, re, order, step, rest, form),
                        sliced('var', rs, re, order, step, 0, rest, form),
                        max_undecided=4)
    for first in FIRST:
        yield Case('%s step zero' % first, zero_step(first))
    small = [None, -4, -3, -1, 0, 1, 3, 4]
    for s in small:
        for e in small:
            yield Case('var, %s to %s' % (s, e), constant('var', s, e))
