"""C28: slicing a fixed dimension."""
from ..explore import Case, Violation
from ..values import *
from .common import *

EXPLAIN = (
    'Abstract interpretation of subshape with slices of a fixed dimension of '
    'unknown length and unknown bounds.  The bounds are partitioned by where '
    'they lie (absent, before the start, at the start, inside, at the end, '
    'after the end, and in which order when they lie in the same part), each '
    'spelled from the start and from the end; the distances between the '
    'points are unknown integers up to 2**48.  For every step up '
    'to the limit, the distance that the slice covers is an unknown multiple '
    'of the step and every remainder; larger steps are unknown integers '
    'above the distance.  The resulting linear expression must be the number '
    'of positions, and the other dimensions and the measure must be kept, '
    'also when the slice is part of a tuple of indices.')
FLOOR = {'quick': 1000, 'thorough': 2000}

# the length of a sequence is limited (sys.maxsize)
MAX = 2 ** 48
REGIONS = ['none', 'below', 'zero', 'mid', 'end', 'above']


class Points(object):
    """Symbolic length and bounds of one order type."""

    def __init__(self, L, rs, re, rel, step, rem):
        """rs, re: regions of the start and the stop; rel: their order where
        the regions are equal; step: int, None or 'big' and '-big'; rem: the
        remainder of the covered distance."""
        i = L.i
        add = lambda a, b: i.binop('+', a, b)
        sub = lambda a, b: i.binop('-', a, b)
        gap = lambda n: L.int(n, 1, MAX)
        neg = step == '-big' or isinstance(step, int) and step < 0
        k = abs(step) if isinstance(step, int) else 1
        # the covered part, from the point `lo` up to the point `hi`
        s, e = rs, re
        if neg:
            s = 'end' if s in ('none', 'above') else s
            e = 'below' if e == 'none' else e
            lo, hi = e, s
        else:
            s = 'zero' if s in ('none', 'below') else s
            e = 'end' if e in ('none', 'above') else e
            lo, hi = s, e
        rank = dict(below=0, zero=1, mid=2, end=3, above=4)
        order = rank[lo] - rank[hi]
        if lo == hi == 'mid':
            order = {'<': -1, '=': 0, '>': 1}[rel]
            if neg:
                order = -order
        # distance = gap + adj
        adj = 0
        if neg:
            adj = (lo == 'below') - (hi == 'end')
        covered = order < 0
        self.want = 0
        between = None
        if neg and lo == 'below' and hi == 'zero':
            self.want = 1       # just the first one
        elif neg and hi in ('below',) or neg and lo in ('end', 'above'):
            pass
        elif covered and not (neg and hi == 'below'):
            # gap = k * q + rem - adj >= 1
            least = -(-(1 + adj - rem) // k)
            q = L.int('q', max(least, 0), MAX)
            between = add(i.binop('*', q, k), rem - adj)
            if isinstance(step, str):
                self.want = None
                dist = add(between, adj)
                self.want = 0 if dist == 0 else 1
                if isinstance(dist, AbsVal) and i.bounds(dist)[0] < 1:
                    # split off the empty one
                    self.want = 0 if i.int_cmp('<=', dist, 0) else 1
            else:
                self.want = add(q, 1 if rem else 0)
        # the points, in order: 0 .. mids .. n
        mids = [x for x, r in (('s', rs), ('e', re)) if r == 'mid']
        if len(mids) == 2:
            mids = {'<': ['s', 'e'], '>': ['e', 's'], '=': ['se']}[rel]
        pos = 0
        pts = {}
        ends = ['0'] + mids + ['n']
        cov = None
        if between is not None:
            name = lambda r, which: {'zero': '0', 'below': '0',
                                     'end': 'n'}.get(r, which)
            a = name(lo, 'e' if neg else 's')
            b = name(hi, 's' if neg else 'e')
            cov = (a, b)
        pts['0'] = 0
        for x, y in zip(ends, ends[1:]):
            if cov is not None and (x in cov[:1] or (x == 'se')):
                g = between
            else:
                g = gap('g' + y)
            pos = add(pos, g)
            pts[y] = pos
        self.n = n = pts['n']
        if 'se' in pts:
            pts['s'] = pts['e'] = pts['se']

        def value(r, which):
            if r == 'none':
                return [None]
            if r == 'below':
                return [sub(sub(0, n), out[which])]
            if r == 'zero':
                return [0, sub(0, n)]
            if r == 'mid':
                return [pts[which], sub(pts[which], n)]
            if r == 'end':
                return [n]
            return [add(n, out[which])]
        a, b = gap('a'), gap('b')
        out = {'s': a, 'e': b}
        if rs == re and rs in ('below', 'above'):
            # further out
            far = add(a, b)
            out = {'<': {'s': a, 'e': far}, '=': {'s': a, 'e': a},
                   '>': {'s': far, 'e': a}}[rel]
        self.start = value(rs, 's')
        self.stop = value(re, 'e')
        if step == 'big':
            self.step = add(n, L.int('more', 0, MAX))
        elif step == '-big':
            self.step = sub(0, add(n, L.int('more', 0, MAX)))
        else:
            self.step = step


def spellings(r):
    return 2 if r in ('zero', 'mid') else 1


REST = {
    'element': lambda L: [sk(L, 'M')],
    'dims': lambda L: [L.new('Fixed', L.int('d', 0)), L.new('Var'),
                       sk(L, 'M')],
    'record': lambda L: [L.new('Record', L.list(
        [('a', sk(L, 'A')), ('b', sk(L, 'B'))]))],
    'typevar': lambda L: [L.new('TypeVar', L.text('T', UPPER)),
                          L.new('Option', sk(L, 'M'))],
}


def expect(L, ds, index, want):
    what = '%s.subshape[%s]' % (L.show(ds), L.show(index))
    try:
        got = L.i.res(L.i.getitem(L.attr(ds, 'subshape'), index))
    except Raised as e:
        raise Violation('%s raises %s' % (what, L.exc_text(e.exc)))
    want = L.new('DataShape', *want)
    L.check(L.eq(got, want) and L.eq(want, got), '%s is %s, not %s' % (
        what, L.show(got), L.show(want)))


def sliced(rs, re, rel, step, rem, a, b, rest, form):
    def f(L):
        p = Points(L, rs, re, rel, step, rem)
        tail = REST[rest](L)
        s = L.i.make_slice(p.start[a], p.stop[b], p.step)
        first = L.new('Fixed', p.n)
        want = L.new('Fixed', p.want)
        one = L.new('Fixed', 1)
        dims, index, new = {
            'bare': lambda: ([first], s, [want]),
            'tuple': lambda: ([first], (s,), [want]),
            'new': lambda: ([first], (None, s), [one, want]),
            'new after': lambda: ([first], (s, None), [want, one]),
            'second': lambda: ([L.new('Fixed', 7), first],
                               (L.int('i', 0, 6), s), [want]),
            'second of list': lambda: ([L.new('Fixed', 7), first],
                                       (L.list([1, 4, 1]), s),
                                       [L.new('Fixed', 3), want]),
            'before': lambda: ([first, L.new('Var')], (s, 0), [want]),
            'twice': lambda: ([first, L.new('Fixed', 9)],
                              (s, slice(2, None, 3)),
                              [want, L.new('Fixed', 3)]),
        }[form]()
        if len(dims) == 2 and form != 'before' or rest == 'record':
            pass
        expect(L, L.new('DataShape', *dims + tail), index, new + tail)
    return f


def empty(start, stop, step):
    """A dimension of length zero."""
    def f(L):
        v = {'none': None, 'zero': 0}
        get = lambda n, k: v[k] if k in v else L.int(n, 1, MAX) if k == 'above' \
            else L.i.binop('-', 0, L.int(n, 1, MAX))
        s = L.i.make_slice(get('a', start), get('b', stop), step)
        t = sk(L, 'M')
        expect(L, L.new('DataShape', L.new('Fixed', 0), t), s,
               [L.new('Fixed', 0), t])
    return f


def zero_step(L):
    ds = L.new('DataShape', L.new('Fixed', L.int('n', 0)), sk(L, 'M'))
    s = L.i.make_slice(L.pick('start', [None, 1]), L.pick('stop', [None, 4]),
                       0)
    try:
        got = L.i.getitem(L.attr(ds, 'subshape'), s)
    except Raised as e:
        L.check(L.exc_is(e.exc, ValueError), 'a step of zero raises %s' %
                L.exc_text(e.exc))
    else:
        raise Violation('a step of zero gives %s' % L.show(got))


def constant(n, start, stop):
    """All small steps, for code whose arithmetic is not linear."""
    def f(L):
        t = L.api('int32')
        for step in (None, 1, 2, 3, 4, 7, -1, -2, -3, -4, -7):
            s = slice(start, stop, step)
            expect(L, L.new('DataShape', L.new('Fixed', n), t), s,
                   [L.new('Fixed', len(range(n)[s])), t])
    return f


def order_types():
    for rs in REGIONS:
        for re in REGIONS:
            for rel in '<=>' if rs == re and rs in (
                    'below', 'mid', 'above') else ' ':
                yield rs, re, rel


def cases(L, tier):
    deep = tier == 'thorough'
    steps = [None, 1, -1, 2, -2, 3, -3, 'big', '-big']
    if deep:
        steps += [4, -4, 5, -5, 7, -7, 10, -10]
    for rs, re, rel in order_types():
        for step in steps:
            for rem in range(abs(step) if isinstance(step, int) else 1):
                for a in range(spellings(rs)):
                    for b in range(spellings(re)):
                        yield Case('from %s(%d) to %s(%d)%s step %s rest %d'
                                   % (rs, a, re, b, rel, step, rem),
                                   sliced(rs, re, rel, step, rem, a, b,
                                          'element', 'bare'),
                                   max_undecided=4)
    pick = [(rs, re, rel) for rs, re, rel in order_types()
            if (rs, re, rel) in (('none', 'none', ' '), ('none', 'mid', ' '),
                                 ('mid', 'mid', '<'), ('mid', 'above', ' '),
                                 ('above', 'none', ' '))]
    for rs, re, rel in pick:
        for step in (None, -1, 2, -3):
            for rest in REST:
                for form in ('bare', 'tuple', 'new', 'second', 'before',
                             'second of list', 'new after', 'twice'):
                    if form == 'new after' and rest != 'element':
                        continue
                    yield Case('%s %s %s%s %s %s' % (rs, re, rel, step, rest,
                                                     form),
                               sliced(rs, re, rel, step, 0, 0, 0, rest,
                                      form), max_undecided=4)
    E = ['none', 'below', 'zero', 'above']
    for s in E:
        for e in E:
            for step in (None, 1, -1, 2, -2, 5, -5):
                yield Case('of nothing, %s to %s step %s' % (s, e, step),
                           empty(s, e, step))
    yield Case('step zero', zero_step)
    small = [None, -4, -3, -2, -1, 0, 1, 2, 3, 4]
    for n in (0, 1, 2, 3) if not deep else (0, 1, 2, 3, 5):
        for s in small + [-8, -6, 6, 8] * deep:
            for e in small + [-8, -6, 6, 8] * deep:
                yield Case('of %d, %s to %s' % (n, s, e), constant(n, s, e))
