"""C07: malformed datashape text raises only documented errors."""
from itertools import product
from ..explore import Case, Undecided, Violation
from ..values import *
from .common import *
from . import gram

EXPLAIN = (
    'The parser, the symbol tables and the constructors behind them are '
    'interpreted on every type constructor with every kind of argument '
    '(alone, in pairs, and a smaller set of kinds in threes), with every '
    'parameter any constructor knows and an unknown one as keyword, and '
    'with the accepted results put into every construct that takes a '
    'datashape; the constructors in the symbol tables are also called with '
    'unknown integers and texts.  Broken texts are covered by the viable '
    'prefixes of the grammar with every token, and every character, cut and '
    'doubling, at every position of texts that use every construct.  Only '
    'SyntaxError, TypeError, ValueError and, after a dimension constructor, '
    'NotImplementedError may leave the parser.')
FLOOR = {'quick': 400, 'thorough': 800}
HISTORIES = False

CONSTRS = sorted(gram.CONSTRS) + ['typevar']
ARGS = [
    '0', '3', '-2', '10', '99999999999999999999', "''", "'a'", "'A'",
    "'U8'", "'ns'", "'UTC'", "'day'", "'T...'", "'\\u00e9'", "'a b'",
    'True', 'False', 'int32', 'float32', 'float64', 'string', 'char',
    'null', 'void', 'bool', 'complex', 'T', '3 * int32', 'var * T',
    '... * T', 'A... * T', '?int32', '?3 * T', '{a: int32}', '{}', '()',
    '(int32, T)', '() -> T', '(T) -> ?X', 'string[3]', "time['UTC']",
    'option[T]', 'map[T, X]', "categorical[['a']]", 'decimal[3]',
    "units['m']", '[]', '[3]', '[3, 3]', '[0]', "['a']", "['a', 'b']",
    "['a', 'a']", "['']", '[True]', '[True, False]', '[int32]',
    '[T, X]', '[3 * int32]', '[3 * int32, T]', '[?T]', '[null]',
    '[{a: T}, {a: T}]', '[... * T]', '[() -> T, T]', '[string, string]',
]
FEW = ['3', '0', "'a'", "'U8'", 'True', 'int32', '3 * T', '?T', '{a: T}',
       '[]', '[3]', "['a']", '[T]']
# what takes a datashape
AROUND = [
    '%s', '3 * %s', '?%s', '{a: %s}', '{a: %s, b: %s}', '(%s)', '(%s, %s)',
    '(%s) -> T', '() -> %s', '3 * ?%s', 'var * {a: ?%s}', 'T * %s',
    '... * %s', 'option[%s]', 'map[%s, T]', 'map[T, %s]',
    "units['m', %s]", "categorical[['a'], type=%s]",
    'categorical[[1], %s]', 'complex[%s]', 'tuple[[%s]]',
    "struct[['a'], [%s]]", 'funcproto[[%s], T]', 'funcproto[[], %s]',
    'categorical[[%s]]', 'categorical[[%s, %s]]', 'string[%s]',
    'decimal[%s]', 'timedelta[%s]', 'fixed[%s]', 'typevar[%s]',
    'ellipsis[%s] * T', '%s * T', '%s ... * T', '%s -> T', '[%s]', '%s, %s',
    '%s: T', '{%s: T}', 'categorical[%s]', 'struct[%s, %s]', 'tuple[%s]',
    'funcproto[%s, T]',
]


def allowed(L, exc, text):
    if L.exc_is(exc, SyntaxError, TypeError, ValueError):
        return True
    return L.exc_is(exc, NotImplementedError) and any(
        n in text for n in gram.DIM_CONSTRS)


def check_text(L, text):
    kind, v = L.outcome('dshape', text)
    if kind == 'ret':
        L.check(L.isinst(v, 'DataShape'),
                'dshape(%r) gives %s' % (text, L.show(v)))
    elif not allowed(L, v, text):
        raise Violation('dshape(%r) raises %s' % (text, L.exc_text(v)))


def batch(texts):
    def f(L):
        for t in texts:
            check_text(L, t)
    return f


def keywords():
    """Every parameter name a constructor could know."""
    return ['unit', 'tz', 'precision', 'scale', 'type', 'ordered', 'tp',
            'categories', 'fixlen', 'encoding', 'ty', 'key', 'value',
            'names', 'dshapes', 'name', 'symbol', 'self', 'nosuch', 'args',
            'kwargs', 'ret', 'parameters', 'fields', 'val']


def constructor_texts(deep):
    for c in CONSTRS + list(gram.DIM_CONSTRS) + ['nosuch', 'int32', 'var']:
        yield '%s[]' % c
        yield '%s[' % c
        for a in ARGS:
            yield '%s[%s]' % (c, a)
    some = FEW[:8:1] if deep else ['3', "'a'", 'True', 'T', '[]', '[3]',
                                   "['a']", '[T]']
    for c in CONSTRS:
        for a, b in product(ARGS, repeat=2):
            if deep or a in some[:5] or b in some[:5]:
                yield '%s[%s, %s]' % (c, a, b)
        for a in product(FEW if deep else some[:6], repeat=3):
            yield '%s[%s]' % (c, ', '.join(a))
        for a in FEW:
            yield '%s[%s]' % (c, ', '.join([a] * 4))
        for k in keywords():
            for a in ARGS if deep else some[:4] + ["'UTC'", "['a']"]:
                yield '%s[%s=%s]' % (c, k, a)
                yield "%s[['a'], %s=%s]" % (c, k, a)
                if deep or a in some[:4]:
                    yield "%s['m', %s=%s]" % (c, k, a)
                    yield '%s[3, %s=%s]' % (c, k, a)
                    yield '%s[T, %s=%s]' % (c, k, a)
        for k, j in product(keywords() if deep else keywords()[:12],
                            repeat=2):
            for a, b in [('3', '1'), ("['a']", 'string'), ("'m'", 'T'),
                         ('T', 'X'), ('True', "['a']"), ("'UTC'", '3')][
                             ::1 if deep else 2]:
                yield '%s[%s=%s, %s=%s]' % (c, k, a, j, b)


def nested_texts(deep):
    inner = [a for a in ARGS] + [
        'T', 'X...', '...', 'var', '3', 'nosuch', '', 'int32 int32', '?',
        '3 *', '* T', '->', '_x', 'a b', "'a'", 'True', ',', ':', '=',
        '{a: {a: T}}', '((T))', '3 * 4 * T', '?{a: ?T}', '{"": T}',
        '{0: T}', '{True: T}', '{T: T}', '{_: T}', "{'a b': T}",
        'fixed[3] * T', "typevar['T']", 'complex[float32]',
        "timedelta['eons']", '{a: T, a: X}', '... * ... * T']
    for f in AROUND:
        n = f.count('%s')
        for a in inner:
            yield f % ((a,) * n)
            for g in AROUND if deep else AROUND[1:26:9]:
                if g.count('%s') == 1:
                    yield g % (f % ((a,) * n))


BROKEN = [
    "3 * var * {a: ?int32, 'b c': (T, A... * X) -> string[10, 'U8']}",
    "categorical[['a', 'b'], type=string, ordered=True]",
    "{x: map[string, ?{y: complex[float32]}], z: units['m', 3 * T]}",
    "time[tz='UTC'] # comment\n", '10 * decimal[precision=7, scale=2]',
    "(int32, ) -> tuple[[T, struct[['a'], [X]]]]",
    "datetime['UTC']", 'option[... * funcproto[[int32], T]]',
    "{\"q\\\"\\n\": 'x'}", "u'a'", "timedelta[unit='ns']\r\n\t",
    'fixed[3] * ellipsis[T] * T',
]
CHARS = ['', ' ', '\n', '\t', '\r', '\x0b', '\x00', '\x1c', '#', '$', '@',
         '"', "'", '\\', '-', '>', '.', '..', '...', '*', '?', '!', '=',
         ':', ',', ';', '[', ']', '{', '}', '(', ')', '0', '9', '_', 'a',
         'Z', '\u00e9', '\u4e2d', '\u0660', '\u00b2', '\ud800', '\U0001f600',
         'u', 'True', 'T', '3', 'int32', '->', '/', '<', '+', '1e3', '0x1',
         '\xa0', '\u2028', '\ufeff', '0_0', '00', '-0']


def broken_texts(deep):
    from .c06 import REFUSED
    for s in REFUSED + BROKEN[:3]:
        for t in (s, s[:-1], s + ' }', s + ' $', '$ ' + s, s + ' "'):
            for f in LAYOUTS:
                yield f(t)
    for s in BROKEN:
        for k in range(len(s) + 1):
            yield s[:k]
            yield s[k:]
            for c in CHARS if deep else CHARS[k % 5::5]:
                yield s[:k] + c + s[k:]
                yield s[:k] + c + s[k + 1:]
            for n in (2, 3, 5):
                yield s[:k] + s[k + n:]
                yield s[:k] + s[k:k + n] + s[k:]
    for a in CHARS:
        for b in CHARS:
            yield a + b
            for c in CHARS if deep else CHARS[::12]:
                yield a + b + c
    for n in (10, 20):
        for a, b in ['()', '[]', '{}', ('{a: ', '}'), ('?', ''), ('3 * ', ''),
                     ('option[', ']'), ('() -> ', ''), ('... * ', ''),
                     ('categorical[[', ']]'), ('"', '"'), ("'", ''),
                     ('#', ''), ('\\', ''), ('\n', ' ')]:
            yield a * n + 'T' + b * n
            yield a * n
            yield a * n + 'T' + b * (n - 1)
            yield a * n + 'T' + b * (n + 1)


# lines before, after and between
LAYOUTS = [
    lambda s: '\n' + s, lambda s: s + '\n', lambda s: '# x\n' + s,
    lambda s: s + ' # x', lambda s: s + '\n# x\n\n',
    lambda s: s.replace(' ', '\n'), lambda s: s.replace(' ', '\r\n  '),
    lambda s: s.replace(' ', '\n', 1), lambda s: s.replace(' ', ' # \n\t'),
    lambda s: '\n'.join(s.rsplit(' ', 1)), lambda s: '\n\n' + s + '\n\n',
]


# ------------------------------------- constructors with unknown parameters

PARTS = {
    'integer': lambda L, k: L.int('n%d' % k),
    'text': lambda L, k: L.text('s%d' % k),
    'unit': lambda L, k: L.pick('unit', UNITS),
    'encoding': lambda L, k: L.pick('encoding', ENCODINGS),
    'true': lambda L, k: True,
    'false': lambda L, k: False,
    'datashape': lambda L, k: L.new('DataShape', sk(L, 'X%d' % k)),
    'dimensions': lambda L, k: L.new('DataShape', L.new('Fixed', 3),
                                     sk(L, 'X%d' % k)),
    'record': lambda L, k: L.new('DataShape', L.new(
        'Record', L.list([('a', sk(L))]))),
    'empty': lambda L, k: L.list([]),
    'integers': lambda L, k: L.list([L.int('i'), L.int('j')]),
    'texts': lambda L, k: L.list([L.text('a'), L.text('b')]),
    'bools': lambda L, k: L.list([True, False]),
    'datashapes': lambda L, k: L.list([L.new('DataShape', sk(L, 'A')),
                                       L.new('DataShape', sk(L, 'B'))]),
    'one text': lambda L, k: L.list([L.text('a')]),
    'one datashape': lambda L, k: L.list([L.new('DataShape', sk(L, 'A'))]),
}


# what looks into the texts it is given
PARSING = ('categorical', 'map', 'funcproto', 'tuple', 'struct', 'option',
           'complex')
KNOWN = {
    'text': lambda L, k: L.pick('text', ['', 'ab', '12', 'T', '{a: int8}',
                                         '$', '* T', 'var']),
    'texts': lambda L, k: L.list(['a', 'b c']),
    'one text': lambda L, k: L.list(['a']),
}


def calling(table, name, kinds, kw):
    def f(L):
        sym = L.api('sym', 'datashape.type_symbol_table')
        t = L.attr(sym, table)
        fn = L.i.call(L.attr(t, 'get'), [name], {})
        if fn is None:
            return
        # which type a text is discovered to have is another matter
        parts = dict(PARTS, **KNOWN) if name in PARSING else PARTS
        args = [parts[k](L, n) for n, k in enumerate(kinds)]
        kws = {k: parts[p](L, 9) for k, p in kw}
        try:
            v = L.i.res(L.i.call(fn, args, kws))
        except Raised as e:
            if not L.exc_is(e.exc, SyntaxError, TypeError, ValueError):
                raise Violation('%s[%s] raises %s' % (
                    name, ', '.join(list(kinds) + ['%s=%s' % x for x in kw]),
                    L.exc_text(e.exc)))
            return
        # the parser puts it into a datashape
        kind, d = L.outcome('DataShape', v)
        if kind == 'raise' and not L.exc_is(d, TypeError, ValueError):
            raise Violation('a datashape of %s raises %s' % (
                L.show(v), L.exc_text(d)))
    return f


def cases(L, tier):
    deep = tier == 'thorough'
    seen = set()
    step = 80
    for label, texts in [('constructor', constructor_texts(deep)),
                         ('nested', nested_texts(deep)),
                         ('broken', broken_texts(deep)),
                         ('prefix', (' '.join(t) for t in prefix_texts(
                             deep)))]:
        out = []
        for t in texts:
            if t not in seen:
                seen.add(t)
                out.append(t)
        for k in range(0, len(out), step):
            yield Case('%s texts %d from %r' % (label, k, out[k]),
                       batch(out[k:k + step]), relaxed=True)
    sym = L.api('sym', 'datashape.type_symbol_table')
    kinds = sorted(PARTS)
    few = ['integer', 'text', 'true', 'datashape', 'texts', 'datashapes',
           'empty']
    for c in CONSTRS:
        lists = [()] + [(a,) for a in kinds] + list(product(
            kinds if deep else few, repeat=2)) + list(
                product(few if deep else few[::2], repeat=3))
        for a in lists:
            yield Case('%s(%s)' % (c, ', '.join(a)),
                       calling('dtype_constr', c, a, ()))
        for k in keywords():
            for a in few:
                yield Case('%s(%s=%s)' % (c, k, a),
                           calling('dtype_constr', c, (), [(k, a)]))
                if deep:
                    for b in few:
                        yield Case('%s(%s, %s=%s)' % (c, b, k, a), calling(
                            'dtype_constr', c, (b,), [(k, a)]))
    for c in ('fixed', 'typevar', 'ellipsis'):
        for a in kinds:
            yield Case('%s(%s)' % (c, a), calling('dim_constr', c, (a,), ()))


def prefix_texts(deep):
    from .c06 import TOKENS, FEW as FEW_TOKENS, prefixes, CONTEXTS
    for t in prefixes(4 if deep else 3, TOKENS):
        yield t
    for before, after in CONTEXTS:
        for t in product(TOKENS, TOKENS if deep else FEW_TOKENS):
            yield before.split() + list(t)
            if deep:
                yield before.split() + list(t) + after.split()
