"""C12: promotion of numeric types."""
from ..explore import Case, Violation
from ..values import *
from .common import *

EXPLAIN = (
    'Abstract interpretation of promote on every pair of numeric and boolean '
    'types, each bare, optional, wrapped as a datashape and wrapped optional, '
    'in both orders and with option promotion on and off; the result is '
    'compared with an independent table of kinds and sizes (smallest type '
    'holding both) and options are compared with the operands.  Strings, '
    'arbitrary skolem types against themselves, and optionify on skolem types '
    'are covered separately.')
FLOOR = {'quick': 140, 'thorough': 140}

KIND = {}
for _n in (8, 16, 32, 64):
    KIND['int%d' % _n] = ('i', _n)
    KIND['uint%d' % _n] = ('u', _n)
for _n in (16, 32, 64):
    KIND['float%d' % _n] = ('f', _n)
for _n in (64, 128):
    KIND['complex%d' % _n] = ('c', _n)
KIND['bool_'] = ('b', 8)
NUMERIC = list(KIND)


def join(a, b):
    """The smallest type that holds every value of both (64-bit integers
    are taken to fit a double)."""
    if a == b:
        return a
    (ka, na), (kb, nb) = KIND[a], KIND[b]
    if ka == 'b':
        return b
    if kb == 'b':
        return a
    if ka == kb:
        return a if na >= nb else b

    def as_float(k, n):
        """Size of the float that holds the component."""
        if k == 'f':
            return n
        if k == 'c':
            return n // 2
        return 16 if n == 8 else 32 if n == 16 else 64
    if 'c' in (ka, kb):
        return 'complex%d' % max(64, 2 * max(as_float(ka, na),
                                             as_float(kb, nb)))
    if 'f' in (ka, kb):
        return 'float%d' % max(as_float(ka, na), as_float(kb, nb))
    # signed and unsigned
    s, u = (na, nb) if ka == 'i' else (nb, na)
    n = max(s, 2 * u)
    return 'float64' if n > 64 else 'int%d' % n


FORMS = [
    ('bare', 0, lambda L, x: x),
    ('option', 1, lambda L, x: L.new('Option', x)),
    ('wrapped', 0, lambda L, x: L.new('DataShape', x)),
    ('wrapped option', 1,
     lambda L, x: L.new('DataShape', L.new('Option', x))),
]


def promotes(L, a, b, want, **k):
    got = L.call('promote', a, b, **k)
    L.check(L.isinst(got, 'Mono'), 'promote(%s, %s) is %s' % (
        L.show(a), L.show(b), L.show(got)))
    L.check(L.eq(got, want) and L.eq(want, got),
            'promote(%s, %s%s) is %s, not %s' % (
                L.show(a), L.show(b),
                ''.join(', %s=%s' % x for x in k.items()),
                L.show(got), L.show(want)))
    return got


def pair(a, b, want):
    def f(L):
        na, oa, fa = L.pick('form of the left', FORMS)
        nb, ob, fb = L.pick('form of the right', FORMS)
        x, y = fa(L, L.api(a)), fb(L, L.api(b))
        w = L.api(want)
        opt = L.new('Option', w) if oa or ob else w
        promotes(L, x, y, opt)
        promotes(L, y, x, opt)
        promotes(L, x, y, opt, promote_option=True)
        if a == b and oa == ob:
            return
        promotes(L, x, y, w, promote_option=False)
        promotes(L, y, x, w, promote_option=False)
    return f


def decimals(p, scale, want, n, o, form):
    """A decimal counts as the NumPy type it converts to."""
    def f(L):
        x = L.new('Decimal', p, scale)
        promotes(L, form(L, x), form(L, L.new('Decimal', p, scale)),
                 form(L, x))
        for b in NUMERIC:
            for m, o2, form2 in FORMS:
                w = L.api(join(want, b))
                opt = L.new('Option', w) if o or o2 else w
                promotes(L, form(L, x), form2(L, L.api(b)), opt)
                promotes(L, form2(L, L.api(b)), form(L, x), opt)
                promotes(L, form(L, x), form2(L, L.api(b)), w,
                         promote_option=False)
    return f


def two_decimals(L):
    ds = [(2, 0, 'int8'), (3, 0, 'int16'), (9, 0, 'int32'), (18, 0, 'int64'),
          (2, 1, 'float64'), (30, -3, 'float64')]
    p, s, a = L.pick('left', ds)
    o = L.i.choose(2, 'optional')
    for q, t, b in ds:
        if (p, s) != (q, t):
            w = L.api(join(a, b))
            x = L.new('Decimal', p, s)
            promotes(L, L.new('Option', x) if o else x,
                     L.new('Decimal', q, t), L.new('Option', w) if o else w)


def itself(shape):
    def f(L):
        _, x = shape.make(L)
        n, o, form = L.pick('form', FORMS)
        if shape.name == 'Option' and o:
            raise Infeasible()
        x = form(L, x)
        promotes(L, x, x, x)
        promotes(L, x, x, x, promote_option=L.pick('flag', [True, False]))
    return f


def sized_strings(L):
    """Strings of an unknown length with themselves, bare and optional."""
    x = L.new('String', L.int('n', 0), L.pick('encoding', ENCODINGS))
    o = L.new('Option', x)
    promotes(L, x, x, x)
    promotes(L, o, o, o)


SIZED = [(1, 'A'), (10, 'A'), (20, 'A'), (7, 'U8'), (20, 'U8'), (10, 'U16'),
         (5, 'U32'), (20, 'U32')]


def two_sized(a, b):
    """Strings of known lengths: the result has room for both, is ASCII only
    if both are, and is optional as the operands are."""
    def f(L):
        na, oa, fa = L.pick('form of the left', FORMS)
        nb, ob, fb = L.pick('form of the right', FORMS)
        x, y = fa(L, L.new('String', *a)), fb(L, L.new('String', *b))
        for flag in (True, False):
            got = [L.call('promote', p, q, promote_option=flag)
                   for p, q in ((x, y), (y, x))]
            for g in got:
                opt = L.isinst(g, 'Option')
                m = L.attr(g, 'ty') if opt else g
                L.check(opt == bool(flag and (oa or ob)) and
                        L.isinst(m, 'String') and
                        L.attr(m, 'fixlen') == max(a[0], b[0]) and
                        (L.attr(m, 'encoding') == 'A') ==
                        (a[1] == b[1] == 'A'),
                        'promote(%s, %s, promote_option=%s) is %s' % (
                            L.show(x), L.show(y), flag, L.show(g)))
            L.check(L.eq(got[0], got[1]), 'promote of %s and %s depends on '
                    'their order' % (L.show(x), L.show(y)))
    return f


def optionify(opt_l, opt_r, opt_d):
    def f(L):
        a, b, d = (sk(L, n) for n in 'ABD')
        plain = d
        if opt_l:
            a = L.new('Option', a)
        if opt_r:
            b = L.new('Option', b)
        if opt_d:
            d = L.new('Option', d)
        got = L.call(L.api('optionify', 'datashape.promote'), a, b, d)
        want = d if opt_d else L.new('Option', plain) if opt_l or opt_r \
            else plain
        L.check(L.eq(got, want), 'optionify(%s, %s, %s) is %s' % (
            L.show(a), L.show(b), L.show(d), L.show(got)))
    return f


def cases(L, tier):
    for i, a in enumerate(NUMERIC):
        for b in NUMERIC[i:]:
            yield Case('%s and %s' % (a, b), pair(a, b, join(a, b)))
    for p, scale, w in [(1, 0, 'int8'), (2, 0, 'int8'), (3, 0, 'int16'),
                        (4, 0, 'int16'), (5, 0, 'int32'), (9, 0, 'int32'),
                        (10, 0, 'int64'), (18, 0, 'int64'),
                        (5, 2, 'float64'), (25, 2, 'float64'),
                        (5, -1, 'float64')]:
        for form in FORMS:
            yield Case('decimal %d %d %s' % (p, scale, form[0]), decimals(
                p, scale, w, *form), relaxed=True)
    yield Case('two decimals', two_decimals)
    yield Case('string and string', pair('string', 'string', 'string'))
    for s in measures():
        yield Case('%s with itself' % s.name, itself(s))
    yield Case('sized strings', sized_strings)
    for a in SIZED:
        for b in SIZED:
            if a < b:
                yield Case('strings %s and %s' % (a, b), two_sized(a, b),
                           relaxed=True)
    for l in (0, 1):
        for r in (0, 1):
            for d in (0, 1):
                yield Case('optionify %d %d %d' % (l, r, d),
                           optionify(l, r, d))
