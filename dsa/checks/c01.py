"""C01: printing and parsing give the same datashape back."""
from ..explore import Case, Undecided, Violation
from ..values import *
from .common import *
from .ops import untouched

EXPLAIN = (
    'The printers, the lexer, the parser and the constructors are '
    'interpreted one after the other: every class of element with '
    'representatives of every class of parameter (for text: every kind of '
    'escape and quoting, Unicode planes, surrogates, what looks like syntax) '
    'is put into every construct that holds datashapes, two and three '
    'levels deep.  The width of the layout is unknown, so that every '
    'combination of one-line and wrapped layouts is a partition.  The '
    'result must be equal in both directions, of the same classes and with '
    'the same parameters, and print the same.')
FLOOR = {'quick': 600, 'thorough': 1000}
HISTORIES = False

TEXTS = [
    '', 'a', 'a b', "'", '"', '\'"', "''", '\\', '\\\\', '\\n', 'x\\', '\\"',
    "\\'", "'\\\"", '\n', '\r', '\r\n', '\t', '\b', '\f', '\v', '\a', '\x00',
    '\x1b', '\x1c', '\x7f', '\x80', '\x85', '\x9f', '\xa0', '\xad', '\xe9',
    '\u0100', '\u0378', '\u0660', '\u2028', '\u2029', '\u200b', '\ufeff',
    '\u4e2d', '\ud7ff', '\ud800', '\udfff', '\ue000', '\uffff',
    '\U00010000', '\U0001f600', '\U000e0001', '\U0010ffff', '\\u0041',
    '\\x41', '\\U00010000', '\\u', '\\x4', 'u', 'uu', 'menu', "u'a'",
    "b'a'", "r'a'", '#', '# x', '%s', '%', '{0}', '{', '}', '[', ']', ',',
    ', ', ':', '=', '->', '...', '*', '?', 'True', 'None', 'UTC', 'U8',
    'Europe/Berlin', 'm/s**2', ' ', ' a ', '3', '-3', 'int32', 'a\n  b',
    'x' * 90, 'x, ' * 30, '\\\n', '\\\r', 'a\\\'b"c', '\x00\\x00', '0',
    '\\b', '\\u005c', '\u00e9\\', "it's", 'say "x"', '\ud83d\ude00',
]
NAMES = TEXTS + ['A', 'B1', '_', '__a', 'a1', '_1', 'True_', 'False', 'true',
                 'var', 'string', 'option', 'a-b', '1a', 'a.b', 'a\u00e9',
                 '\u00e9a', 'a\n', 'T...', 'lambda', 'None', 'a:b', "a'"]
INTS = [0, 1, 2, 9, 10, 11, 99, 100, 12345, 2 ** 31, 2 ** 64, 10 ** 20]
MORE_INTS = [999, 1000, 123456, 1234567, 10 ** 6, 10 ** 7, 2 ** 31 - 1,
             2 ** 32, 2 ** 53 - 1, 2 ** 53 + 1, 123456789012345678,
             2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 10 ** 19 + 7, 10 ** 30 + 1]


def ds(L, x):
    return L.new('DataShape', x)


def tagged(prefix, values, build):
    for v in values:
        yield '%s %s' % (prefix, ascii(v)), \
            lambda L, v=v: build(L, v)


def leaves():
    """name, how to build it, alone with unusual parameters."""
    for n in SCALARS + SINGLES:
        if n != 'var':
            yield n, lambda L, n=n: L.api(n)
    for cls in ('Time', 'DateTime'):
        for x in tagged(cls, [None] + TEXTS,
                        lambda L, v, cls=cls: L.new(cls, v)):
            yield x
    for x in tagged('Units', TEXTS, lambda L, v: L.new('Units', v)):
        yield x
    for x in tagged('Units with type', TEXTS, lambda L, v: L.new(
            'Units', v, ds(L, L.api('int32')))):
        yield x
    for u in UNITS:
        yield 'TimeDelta ' + u, lambda L, u=u: L.new('TimeDelta', u)
    for e in ENCODINGS:
        for n in [None, -3] + INTS:
            yield 'String %s %s' % (n, e), lambda L, n=n, e=e: string_build(
                L, n, e)
    for p in [-1] + INTS:
        for s in [-2, 0, 1, 12]:
            yield 'Decimal %d %d' % (p, s), lambda L, p=p, s=s: L.new(
                'Decimal', p, s)
    for s in ['T', 'Tx', 'T_1', 'True_', 'ABC', 'T' * 90, 'TRUE', 'None_']:
        yield 'TypeVar ' + s, lambda L, s=s: L.new('TypeVar', s)
    for x in categoricals():
        yield x


def categoricals():
    def cat(cats, tp=None, ordered=False):
        return lambda L: L.new('Categorical', L.list(list(cats)),
                               tp and tp(L), ordered)
    string = lambda L: L.api('string')
    for t in TEXTS:
        yield 'category %s' % ascii(t), cat([t], string)
        yield 'categories x %s' % ascii(t), cat(['x', t, 'y'], string, True)
    for n in range(0, 11):
        yield '%d categories' % n, cat(['c%d' % k for k in range(n)], string)
        yield '%d numbers' % n, cat(range(n), lambda L: L.api('int8'))
    for c in ([0], [-1, 0, 1], [10 ** 20], [True], [False, True],
              [True, True], [0, 0], ['a', 'a']):
        yield 'categories %s' % c, cat(c)
        yield 'ordered categories %s' % c, cat(c, None, True)
        for n in ('int8', 'bool_', 'float64', 'string', 'json', 'null'):
            yield 'categories %s %s' % (c, n), cat(
                c, lambda L, n=n: L.api(n), n == 'string')
    for n, b in [('option', lambda L: L.new('Option', L.api('string'))),
                 ('datetime', lambda L: L.new('DateTime', 'UTC')),
                 ('fixlen', lambda L: L.new('String', 10, 'A')),
                 ('tuple', lambda L: L.new('Tuple', L.list([L.api('int8')]))),
                 ('nested', lambda L: L.new('Categorical', L.list(['a']),
                                            L.api('string'))),
                 ('variable', lambda L: L.new('TypeVar', 'T')),
                 ('array', lambda L: L.new('DataShape', L.new('Fixed', 3),
                                           L.api('string')))]:
        yield 'categories of %s' % n, cat(['a', 'b'], b)


# what the grammar has no text for, to be listed as known
def unwritten():
    def cat(cats):
        return lambda L: L.new('Categorical', L.list(list(cats)))
    for n in (11, 12, 20):
        yield '%d categories' % n, 'more-than-ten-categories', cat(
            ['c%d' % k for k in range(n)])
        yield '%d numbers' % n, 'more-than-ten-categories', cat(range(n))
    for c in ([1.5], [0.0, 2.5], [None], [1, 'a'], [None, 'a'], [True, 1.5]):
        yield 'categories %s' % c, 'categories-without-literals', cat(c)
    yield 'option of option', 'option-of-option', lambda L: L.new(
        'Option', L.new('Option', L.api('int32')))
    yield 'option of option of array', 'option-of-option', lambda L: \
        L.new('Option', L.new('Option', L.new('DataShape', L.new(
            'Fixed', 3), L.api('int32'))))
    for n, b in [
            ('argument', lambda L, x: L.new('Function', x, L.api('int8'))),
            ('result', lambda L, x: L.new('Function', x))]:
        yield '%s of option of array' % n, 'option-with-dimensions', \
            lambda L, b=b: b(L, L.new('Option', L.new('DataShape', L.new(
                'Fixed', 3), L.api('int32'))))
    yield 'option of datashape of option', 'option-of-option', lambda L: \
        L.new('Option', ds(L, L.new('Option', L.api('int32'))))


def few_leaves():
    yield 'float64', lambda L: L.api('float64')
    yield 'int32', lambda L: L.api('int32')
    yield 'string', lambda L: L.new('String', 10, 'U16')
    yield 'variable', lambda L: L.new('TypeVar', 'T')
    yield 'text', lambda L: L.new('Units', 'a\'"\\')
    yield 'time', lambda L: L.new('DateTime', 'UTC')
    yield 'categories', lambda L: L.new(
        'Categorical', L.list(['a', ', ']), L.api('string'), True)


def record(L, *fields):
    return L.new('Record', L.list([L.list(list(f)) for f in fields]))


def arg(L, x):
    """An option of an array is not equal to the datashape of it (the known
    finding of C02), which the parser makes of arguments."""
    if L.isinst(x, 'Option') and L.isinst(L.attr(x, 'ty'), 'DataShape') and \
            len(L.items(L.attr(L.attr(x, 'ty'), 'parameters'))) > 1:
        return ds(L, x)
    return x


def options(cn, dn):
    """The text would have two question marks."""
    return cn == 'option' and dn in ('option', 'option of array')


def contexts():
    """name, function of a measure, kind of the result: a measure or a
    whole datashape."""
    T = lambda L: L.new('TypeVar', 'T')
    i8 = lambda L: L.api('int8')
    new = lambda L, *a: L.new(*a)
    yield 'option', lambda L, x: new(L, 'Option', x), True
    yield 'option of array', lambda L, x: new(L, 'Option', new(
        L, 'DataShape', new(L, 'Fixed', 3), new(L, 'Var'), x)), True
    yield 'map key', lambda L, x: new(L, 'Map', x, T(L)), True
    yield 'map value', lambda L, x: new(L, 'Map', i8(L), x), True
    yield 'map of arrays', lambda L, x: new(L, 'Map', new(
        L, 'DataShape', new(L, 'Var'), T(L)), new(
            L, 'DataShape', new(L, 'Fixed', 0), x)), True
    yield 'argument', lambda L, x: new(L, 'Function', arg(L, x), T(L)), True
    yield 'result', lambda L, x: new(L, 'Function', T(L), arg(L, x)), True
    yield 'only result', lambda L, x: new(L, 'Function', arg(L, x)), True
    yield 'second argument', lambda L, x: new(
        L, 'Function', i8(L), new(L, 'DataShape', new(L, 'Fixed', 3), x),
        T(L)), True
    yield 'item', lambda L, x: new(L, 'Tuple', L.list([x])), True
    yield 'items', lambda L, x: new(L, 'Tuple', L.list(
        [i8(L), x, new(L, 'DataShape', new(L, 'Ellipsis'), x)])), True
    yield 'field', lambda L, x: record(L, ('a', x)), True
    yield 'fields', lambda L, x: record(
        L, ('b', i8(L)), ('a b', x), ('int32', new(
            L, 'DataShape', new(L, 'Fixed', 7), x)), ('Z', T(L))), True
    yield 'units', lambda L, x: new(L, 'Units', 'm', ds(L, x)), True
    yield 'units of array', lambda L, x: new(L, 'Units', 'm', new(
        L, 'DataShape', new(L, 'Fixed', 3), x)), True
    yield 'type of categories', lambda L, x: new(
        L, 'Categorical', L.list(['a', 'b']), x), True
    yield 'datashape', lambda L, x: ds(L, x), False
    for n, dims in [
            ('fixed', lambda L: [new(L, 'Fixed', 5)]),
            ('var', lambda L: [new(L, 'Var')]),
            ('ellipsis', lambda L: [new(L, 'Ellipsis')]),
            ('named ellipsis', lambda L: [new(L, 'Ellipsis', new(
                L, 'TypeVar', 'Abc'))]),
            ('dimension variable', lambda L: [new(L, 'TypeVar', 'N')]),
            ('many dimensions', lambda L: [
                new(L, 'Fixed', 0), new(L, 'TypeVar', 'N'), new(L, 'Var'),
                new(L, 'Ellipsis', new(L, 'TypeVar', 'A')),
                new(L, 'Fixed', 10 ** 20), new(L, 'Var')])]:
        yield n, lambda L, x, dims=dims: new(
            L, 'DataShape', *(dims(L) + [x])), False


EMPTY = [('empty tuple', lambda L: L.new('Tuple', L.list([]))),
         ('empty record', lambda L: L.new('Record', L.list([])))]


# ----------------------------------------------------------------- the check

def check_text(L, x, how, text, key=None):
    if isinstance(text, AbsVal):
        raise Undecided('the text is %s' % L.show(text))
    what = '%s of %s is %r' % (how, L.show(x), text)
    L.check(isinstance(text, str), what, key)
    kind, v = L.outcome('dshape', text)
    L.check(kind == 'ret', '%s, which raises %s' % (
        what, L.exc_text(v) if kind == 'raise' else ''), key)
    want = x if L.isinst(x, 'DataShape') else L.new('DataShape', x)
    L.check(L.eq(v, want) and L.eq(want, v) and not L.ne(v, want),
            '%s, which gives %s' % (what, L.show(v)), key)
    same(L, what, v, want, key)
    return v


def measure_of(L, x):
    """A datashape of a measure alone is that measure."""
    while L.isinst(x, 'DataShape'):
        ps = L.items(L.attr(x, 'parameters'))
        if len(ps) != 1:
            break
        x = L.i.res(ps[0])
    return x


def same(L, what, a, b, key=None):
    """The same classes with the same parameters."""
    a, b = measure_of(L, L.i.res(a)), measure_of(L, L.i.res(b))
    if untouched(L, a, b) or a is b:
        return
    no = '%s, which gives %s instead of %s' % (what, L.show(a), L.show(b))
    L.check(L.i.type_of(a) is L.i.type_of(b), no, key)
    if isinstance(a, (tuple, VList)):
        xs, ys = L.items(a), L.items(b)
        L.check(len(xs) == len(ys), no, key)
        for x, y in zip(xs, ys):
            same(L, what, x, y, key)
        return
    if L.isinst(a, 'Mono'):
        L.check(L.eq(a, b), no, key)
        same(L, what, L.attr(a, 'parameters'), L.attr(b, 'parameters'), key)
        return
    L.check(L.truth(L.i.compare('==', a, b)), no, key)


def round_trip(build, key=None, widths=False):
    def f(L):
        x = build(L)
        text = L.i.res(L.str(x))
        v = check_text(L, x, 'the text', text, key)
        again = L.i.res(L.str(v))
        if L.isinst(x, 'DataShape'):
            L.check(again == text, 'the text of %s is %r, parsed and printed '
                    '%r' % (L.show(x), text, again), key)
        if widths:
            w = L.int('width')
            wide = L.i.res(L.i.call(L.api('pprint'), [x, w], {}))
            if not (isinstance(wide, str) and wide == text):
                check_text(L, x, 'the layout', wide, key)
    return f


def batch(builds, widths=False):
    fs = [round_trip(b, None, widths) for b in builds]

    def f(L):
        for g in fs:
            g(L)
    return f


def grouped(label, items, step):
    items = list(items)
    for k in range(0, len(items), step):
        yield Case('%s %d: %s' % (label, k, items[k][0]),
                   batch([b for _, b in items[k:k + step]]), relaxed=True)


def cases(L, tier):
    deep = tier == 'thorough'
    cs = list(contexts())
    base = list(leaves()) + EMPTY
    for c in grouped('elements', base, 8):
        yield c
    out = []
    for k, n in enumerate(INTS + MORE_INTS):
        out += [('length %d' % n, lambda L, n=n: L.new(
            'DataShape', L.new('Fixed', n), L.api('int32'))),
            ('lengths %d' % n, lambda L, n=n, k=k: L.new(
                'Option', L.new('DataShape', L.new('Var'), L.new(
                    'Fixed', n), L.new('Fixed', k), L.api('string')))),
            ('sizes %d' % n, lambda L, n=n: L.new('Tuple', L.list([
                string_build(L, n, 'A'), L.new('Decimal', n, n),
                L.new('Categorical', L.list([n, -n]), L.api('int64'))])))]
    for c in grouped('numbers', out, 8):
        yield c
    # every element in a few constructs
    some = [c for c in cs if deep or c[0] in (
        'option', 'map key', 'argument', 'fields', 'many dimensions')]
    out = []
    for cn, cf, _ in some:
        for n, b in base:
            out.append(('%s %s' % (cn, n), lambda L, cf=cf, b=b: cf(L, b(L))))
    for c in grouped('in a construct', out, 12):
        yield c
    # field names
    out = []
    for n in NAMES:
        out += [('field %s' % ascii(n), lambda L, n=n: record(
            L, (n, L.api('int32')))),
            ('fields %s' % ascii(n), lambda L, n=n: L.new(
                'DataShape', L.new('Var'), record(
                    L, ('first', L.new('TypeVar', 'T')), (n, L.new(
                        'Option', L.api('string'))), ('last', record(
                            L, (n, L.api('bool_')))))))]
    for c in grouped('field names', out, 12):
        yield c
    # constructs in constructs
    kernel = list(few_leaves()) + EMPTY
    for cn, cf, _ in cs:
        for dn, df, m in cs:
            if m or cn == 'option':
                if options(cn, dn):
                    continue
                out = [('', lambda L, cf=cf, df=df, b=b: cf(L, df(L, b(L))))
                       for _, b in (kernel if deep else
                                    kernel[:4] + kernel[-2:])]
                yield Case('%s of %s' % (cn, dn), batch(
                    [b for _, b in out]), relaxed=True)
    # whole datashapes in the constructs that keep them
    arrays = [c for c in cs if not c[2]]
    for cn, cf, m in cs:
        if m and cn in ('option', 'map key', 'map value', 'argument',
                        'result', 'only result', 'item', 'field', 'units'):
            for an, af, _ in arrays:
                yield Case('%s of %s' % (cn, an), batch(
                    [lambda L, cf=cf, af=af, b=b: cf(L, af(L, b(L)))
                     for _, b in kernel[:4]]), relaxed=True)
    # three levels
    for cn, cf, _ in cs:
        for dn, df, m in cs:
            for en, ef, m2 in cs if deep else cs[:16:3]:
                if m and m2 and not options(cn, dn) and not \
                        options(dn, en):
                    yield Case('%s of %s of %s' % (cn, dn, en), batch(
                        [lambda L, cf=cf, df=df, ef=ef, b=b: cf(L, df(L, ef(
                            L, b(L)))) for _, b in kernel[2:4]]),
                        relaxed=True)
    # layouts
    layouts = list(layout_shapes())
    for n, b in layouts:
        yield Case('layout of %s' % n, round_trip(b, None, True),
                   relaxed=True)
    for n, key, b in unwritten():
        yield Case('unwritten %s' % n, round_trip(b, key), relaxed=True)


def layout_shapes():
    T = lambda L: L.new('TypeVar', 'T')
    i8 = lambda L: L.api('int8')
    tup = lambda L, *a: L.new('Tuple', L.list(list(a)))
    arr = lambda L, *a: L.new('DataShape', *a)
    fix = lambda L, n: L.new('Fixed', n)
    for cn, cf, _ in contexts():
        yield 'record in ' + cn, lambda L, cf=cf: cf(L, record(
            L, ('a', i8(L)), ('b c', T(L))))
        yield 'tuple in ' + cn, lambda L, cf=cf: cf(L, tup(L, i8(L), T(L)))
    yield 'record of records', lambda L: record(
        L, ('a', record(L, ('b', i8(L)))), ('c', arr(L, fix(L, 3), record(
            L, ('d', T(L))))))
    yield 'tuple of tuples', lambda L: tup(L, tup(L, i8(L)), arr(
        L, fix(L, 3), tup(L, T(L), i8(L))))
    yield 'record of tuples', lambda L: record(
        L, ('a', tup(L)), ('b', tup(L, T(L))), ('c', record(L)))
    yield 'tuple of records', lambda L: tup(L, record(L), record(
        L, ('a', T(L))), tup(L))
    yield 'texts', lambda L: record(
        L, ('a\nb', L.new('Units', 'x\ny')), ('\n', L.new(
            'Categorical', L.list(['\n', ',\n  ']), L.api('string'))),
        ('\\\n  ', L.new('Time', '\n')))
    yield 'deep', lambda L: arr(L, L.new('Var'), record(L, ('a', arr(
        L, fix(L, 2), record(L, ('b', tup(L, record(L, ('c', T(L))))))))))
    yield 'function of records', lambda L: L.new(
        'Function', record(L, ('a', i8(L))), tup(L, T(L)), record(
            L, ('b', T(L))))
    yield 'option of record', lambda L: record(L, ('x', L.new(
        'Option', record(L, ('a', T(L)), ('b', tup(L, T(L)))))))
    yield 'map of records', lambda L: tup(L, L.new(
        'Map', record(L, ('a', T(L))), tup(L, i8(L))))
    yield 'units of record', lambda L: record(L, ('u', L.new(
        'Units', 'm', ds(L, record(L, ('a', T(L)))))))
    yield 'long names', lambda L: record(
        L, ('x' * 70, T(L)), ('y' * 30, tup(L, T(L), record(
            L, ('z' * 70, i8(L)))))) 
    yield 'seven fields', lambda L: record(
        L, *[('f%d' % k, arr(L, fix(L, k), tup(L, i8(L)))) for k in range(7)])
    many = lambda L, n: [arr(L, fix(L, k), i8(L)) for k in range(n)]
    for n in (7, 8, 9, 13):
        yield '%d items' % n, lambda L, n=n: tup(L, *many(L, n))
        yield '%d arguments' % n, lambda L, n=n: L.new(
            'Function', *many(L, n))
        yield '%d dimensions' % n, lambda L, n=n: arr(
            L, *([fix(L, k) for k in range(n)] + [record(L, ('a', i8(L)))]))
        yield '%d fields in an item' % n, lambda L, n=n: tup(L, record(
            L, *[('g%d' % k, x) for k, x in enumerate(many(L, n))]))

    def nest(L, n):
        x = i8(L)
        for k in range(n):
            x = tup(L, x) if k % 2 else record(L, ('n%d' % k, arr(
                L, fix(L, k), x)))
        return x
    for n in (5, 6, 7, 8):
        yield 'nested %d deep' % n, lambda L, n=n: nest(L, n)
