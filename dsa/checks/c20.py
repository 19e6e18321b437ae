"""C20: indexing a datashape."""
from itertools import product
from ..explore import Case, Violation
from ..values import *
from .common import *

EXPLAIN = (
    'Abstract interpretation of subarray and subshape on every list of up to '
    'three dimensions of every kind (unknown lengths and symbols) over a '
    'skolem measure or a record of skolem fields (one of them with '
    'dimensions), with every index: unknown integers, lists of unknown '
    'integers, field names, positions, lists of them, and tuples of these '
    'and None; the result is compared with the dimensions and measure an '
    'independent definition of indexing leaves.')
FLOOR = {'quick': 400, 'thorough': 700}

NAMES = ['alpha', 'beta', 'gamma', 'a', 'zeta', 'b', 'eta', 'c', 'iota', 'd']


def make_dims(L, kinds):
    out = []
    for k, c in enumerate(kinds):
        if c == 'F':
            out.append(L.new('Fixed', L.int('d%d' % k, 0)))
        elif c == 'T':
            out.append(L.new('TypeVar', L.text('T%d' % k, UPPER)))
        elif c == 'V':
            out.append(L.new('Var'))
        else:
            out.append(L.new('Ellipsis'))
    return out


class Ref(object):
    """dims, then either a skolem measure or named fields."""
    def __init__(self, dims, measure, fields=None):
        self.dims, self.measure, self.fields = dims, measure, fields

    def build(self, L):
        m = self.measure
        if self.fields is not None:
            m = L.new('Record', L.list([(n, t.build(L))
                                        for n, t in self.fields]))
        return L.new('DataShape', *self.dims + [m])


def ref_index(L, r, idx):
    kind, arg = idx
    if kind == 'tuple':
        if not arg:
            return r
        head, rest = arg[0], ('tuple', arg[1:])
        if head[0] == 'None':
            x = ref_index(L, r, rest)
            return Ref([L.new('Fixed', 1)] + x.dims, x.measure, x.fields)
        if r.dims and head[0] in ('int', 'list', 'known', 'all'):
            x = ref_index(L, Ref(r.dims[1:], r.measure, r.fields), rest)
            pre = {'int': [], 'all': r.dims[:1]}.get(head[0])
            if head[0] in ('list', 'known'):
                pre = [L.new('Fixed', len(arg[0][1]))]
            return Ref(pre + x.dims, x.measure, x.fields)
        assert len(arg) == 1
        return ref_index(L, r, head)
    if kind == 'int':
        return Ref(r.dims[1:], r.measure, r.fields)
    if kind in ('list', 'known'):
        return Ref([L.new('Fixed', len(arg))] + r.dims[1:], r.measure,
                   r.fields)
    if kind == 'all':
        return r
    if kind in ('name', 'pos'):
        return r.fields[arg][1]
    if kind == 'slice':
        return Ref([], None, r.fields[slice(*arg)])
    if kind in ('names', 'positions', 'mixed'):
        return Ref([], None, [r.fields[k] for k in arg])


def make_index(L, idx, label='i'):
    kind, arg = idx
    if kind == 'tuple':
        return tuple(make_index(L, x, '%s%d' % (label, k))
                     for k, x in enumerate(arg))
    if kind == 'None':
        return None
    if kind == 'int':
        return L.int(label, 0)
    if kind == 'all':
        return slice(None)
    if kind == 'list':
        return L.list([L.int('%s.%d' % (label, k), 0) for k in arg])
    if kind == 'known':
        return L.list(list(arg))
    if kind == 'name':
        return NAMES[arg]
    if kind == 'pos':
        return arg
    if kind == 'slice':
        return slice(*arg)
    if kind == 'names':
        return L.list([NAMES[k] for k in arg])
    if kind == 'positions':
        return L.list(list(arg))
    if kind == 'mixed':
        return L.list([NAMES[k] if j % 2 else k for j, k in enumerate(arg)])


def show_index(idx):
    kind, arg = idx
    if kind == 'tuple':
        return '(%s)' % ', '.join(show_index(x) for x in arg)
    return kind if arg is None else '%s %s' % (kind, arg)


def subject(L, kinds, rec):
    dims = make_dims(L, kinds)
    if not rec:
        return Ref(dims, sk(L, 'M'))
    fs = []
    for k in range(rec):
        d = [L.new('Fixed', L.int('inner', 0))] if k == 1 else []
        fs.append((NAMES[k], Ref(d, sk(L, 'f%d' % k))))
    return Ref(dims, None, fs)


def index_case(kinds, rec, idx):
    def f(L):
        r = subject(L, kinds, rec)
        ds = r.build(L)
        sub = L.attr(ds, 'subshape')
        ix = make_index(L, idx)
        what = '%s.subshape[%s]' % (L.show(ds), L.show(ix))
        try:
            got = L.i.res(L.i.getitem(sub, ix))
        except Raised as e:
            raise Violation('%s raises %s' % (what, L.exc_text(e.exc)))
        want = ref_index(L, r, idx).build(L)
        L.check(L.eq(got, want) and L.eq(want, got), '%s is %s, not %s' % (
            what, L.show(got), L.show(want)))
        # the subject keeps its value
        L.check(L.eq(ds, r.build(L)), '%s changes the datashape' % what)
    return f


def subarray(kinds, rec, n):
    def f(L):
        r = subject(L, kinds, rec)
        ds = r.build(L)
        kind, v = L.outcome(L.attr(ds, 'subarray'), n)
        what = '%s.subarray(%d)' % (L.show(ds), n)
        if n > len(kinds):
            L.check(kind == 'raise', '%s is %s' % (what, L.show(v)))
            L.check(L.exc_is(v, IndexError), '%s raises %s' % (
                what, L.exc_text(v)))
            return
        if kind == 'raise':
            raise Violation('%s raises %s' % (what, L.exc_text(v)))
        want = Ref(r.dims[n:], r.measure, r.fields).build(L)
        L.check(L.eq(v, want), '%s is %s' % (what, L.show(v)))
        sh = L.items(L.attr(v, 'shape'))
        L.check(len(sh) == len(kinds) - n, '%s has %d dimensions' % (
            what, len(sh)))
    return f


def unknown_subarray(kinds):
    """Removing any number that is too large."""
    def f(L):
        ds = subject(L, kinds, 0).build(L)
        n = L.int('n', len(kinds) + 1)
        kind, v = L.outcome(L.attr(ds, 'subarray'), n)
        L.check(kind == 'raise' and L.exc_is(v, IndexError),
                'removing more than %d dimensions of %s gives %s' % (
                    len(kinds), L.show(ds), L.show(v)))
    return f


def bare_subarray(shape):
    def f(L):
        _, m = shape.make(L)
        v = L.meth(m, 'subarray', 0)
        L.check(L.eq(v, m), '%s.subarray(0) is %s' % (L.show(m), L.show(v)))
        kind, v = L.outcome(L.attr(m, 'subarray'), L.int('n', 1))
        L.check(kind == 'raise' and L.exc_is(v, IndexError),
                'removing dimensions of %s gives %s' % (L.show(m),
                                                        L.show(v)))
    return f


def kinds_upto(n):
    out = ['']
    for k in range(1, n + 1):
        out += [''.join(p) for p in product('FTVE', repeat=k)
                if p.count('E') < 2]
    return out


def cases(L, tier):
    deep = tier == 'thorough'
    for k in kinds_upto(3):
        for n in range(0, 6):
            yield Case('subarray(%d) of %s' % (n, k or 'a measure'),
                       subarray(k, 0, n))
            if len(k) < 2:
                yield Case('subarray(%d) of %s and a record' % (n, k),
                           subarray(k, 2, n))
        yield Case('subarray(n) of %s' % k, unknown_subarray(k))
    for s in measures():
        yield Case('subarray of %s' % s.name, bare_subarray(s))
    INT, NONE, ALL = ('int', None), ('None', None), ('all', None)
    L0, L1, L3 = ('list', ()), ('list', (0,)), ('list', (0, 1, 2))
    REP = ('known', (4, 0, 4))
    fields = [('name', 0), ('name', 1), ('name', 2), ('pos', 0), ('pos', 1),
              ('pos', 2), ('names', (0,)), ('names', (2, 0)),
              ('names', (1, 2, 0)), ('positions', (0,)),
              ('positions', (2, 1)), ('positions', (1,)), ('mixed', (2, 0)),
              ('mixed', (0, 2, 1)), ('names', ())]
    for k in kinds_upto(3):
        if not k:
            continue
        for idx in (INT, L0, L1, L3, REP):
            yield Case('%s[%s]' % (k, show_index(idx)),
                       index_case(k, 0, idx))
            yield Case('%s{}[%s]' % (k, show_index(idx)),
                       index_case(k, 3, idx))
    for f in fields:
        yield Case('{}[%s]' % show_index(f), index_case('', 3, f))
        yield Case('{}[(%s,)]' % show_index(f), index_case(
            '', 3, ('tuple', (f,))))
        yield Case('{}[None, %s]' % show_index(f), index_case(
            '', 3, ('tuple', (NONE, f))))
    tuples = [()]
    for n in range(1, 4):
        tuples += list(product((INT, NONE, L1, REP), repeat=n))
    for k in ('F', 'V', 'T', 'FV', 'VT', 'TF', 'EF', 'FE', 'FVT', 'VFT') + (
            ('VFE', 'EVT', 'TVF', 'FVE') if deep else ()):
        for t in tuples:
            used = sum(1 for x in t if x[0] != 'None')
            if used > len(k):
                continue
            yield Case('%s[%s]' % (k, show_index(('tuple', t))),
                       index_case(k, 0, ('tuple', t)))
            if used == len(k):
                for f in fields if deep else fields[1::3]:
                    yield Case('%s{}[%s %s]' % (
                        k, show_index(('tuple', t)), show_index(f)),
                        index_case(k, 3, ('tuple', t + (f,))))
    for k in ('V', 'VV', 'VVV'):
        for n in range(1, len(k) + 1):
            for t in product((INT, ALL), repeat=n):
                yield Case('%s[%s]' % (k, show_index(('tuple', t))),
                           index_case(k, 0, ('tuple', t)))
                if n == len(k):
                    yield Case('%s{}[%s, beta]' % (
                        k, show_index(('tuple', t))), index_case(
                            k, 3, ('tuple', t + (('name', 1),))))
    for c in long_cases(deep, INT, NONE, L1, REP):
        yield c


LONG = ('FVTFF', 'VFTVFVT', 'FFFFFFFF', 'TVFEFVTFF', 'FVFTFVFTFVFT')


def long_cases(deep, INT, NONE, L1, REP):
    for k in LONG:
        n = len(k)
        for j in range(n + 2):
            yield Case('subarray(%d) of %s' % (j, k), subarray(k, 0, j))
            yield Case('subarray(%d) of %s and a record' % (j, k),
                       subarray(k, 2, j))
        for idx in (INT, L1, REP, ('known', tuple(range(9))),
                    ('known', (3,) * 12)):
            yield Case('%s[%s]' % (k, show_index(idx)),
                       index_case(k, 0, idx))
        for j in range(1, n + 1):
            for t in ((INT,) * j, (REP,) * j, (INT, REP) * j,
                      (REP, INT, L1) * j, (NONE,) + (INT,) * j,
                      (INT,) * j + (NONE,),
                      (REP,) * (j - 1) + (INT,), (INT,) * (j - 1) + (REP,),
                      (NONE, NONE) + (INT, NONE, REP) * j):
                used, out = 0, []
                for x in t:
                    if x[0] != 'None' and used == j:
                        break
                    used += x[0] != 'None'
                    out.append(x)
                t = tuple(out)
                yield Case('%s[%s]' % (k, show_index(('tuple', t))),
                           index_case(k, 0, ('tuple', t)))
                if used >= n:
                    yield Case('%s{}[%s, names]' % (
                        k, show_index(('tuple', t))), index_case(
                            k, 8, ('tuple', t + (('names', (6, 1, 3)),))))
    for j in range(0, 12):
        yield Case('a list of %d' % j, index_case(
            'VF', 0, ('list', tuple(range(j)))))
    for n in (3, 8, 10):
        fs = [('pos', -1), ('pos', -n), ('positions', (-1,)),
              ('positions', (-1, 0)), ('positions', (0, -1, 1)),
              ('positions', tuple(range(-n, 0))),
              ('positions', tuple(reversed(range(n)))),
              ('mixed', (-1, 0)), ('names', tuple(range(n))),
              ('names', tuple(reversed(range(n)))),
              ('names', tuple(range(0, n, 2)) + tuple(range(1, n, 2)))]
        for a in (None, 0, 1, -1, n - 1, n + 3, -n - 2):
            for b in (None, 0, 2, -1, n, n + 5):
                for c in (None, 1, 2, -1, -2):
                    fs.append(('slice', (a, b, c)))
        for j in range(n):
            fs += [('name', j), ('pos', j), ('pos', j - n)]
        for f in fs:
            yield Case('{%d}[%s]' % (n, show_index(f)), index_case('', n, f))
            if f[0] != 'slice' or f[1][2] is None:
                yield Case('F{%d}[i, %s]' % (n, show_index(f)), index_case(
                    'F', n, ('tuple', (INT, f))))
                yield Case('V{%d}[list, %s]' % (n, show_index(f)),
                           index_case('V', n, ('tuple', (REP, f))))
