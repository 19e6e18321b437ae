"""C06: the parser accepts exactly the documented grammar."""
from itertools import product
from ..explore import Case, Undecided, Violation
from ..values import *
from .common import *
from . import gram

EXPLAIN = (
    'The parser is interpreted on a cover of the token sequences and judged '
    'by an independent predictive parser written from the documented '
    'grammar: every sequence of up to three tokens; every extension of '
    'every viable prefix up to the given length by every token; in each of '
    'the states a parser can be in, every pair of tokens followed by what '
    'closes the construct; and every single-token insertion, deletion, '
    'replacement and exchange in a corpus that uses every production.  '
    'Where the reference derives a tree the result must match it part by '
    'part, in order; where it does not, a syntax error is due (or the error '
    'of a construct that was complete before).')
FLOOR = {'quick': 400, 'thorough': 800}
HISTORIES = False
HELPERS = gram.HELPERS

TOKENS = ['int32', 'string', 'var', 'option', 'fixed', 'foo', 'T', '_x',
          'True', '3', '-2', "'a'", '*', ',', '=', ':', '[', ']', '{', '}',
          '(', ')', '...', '->', '?']
# one of each kind that the grammar tells apart, for longer sequences
FEW = ['int32', 'var', 'option', 'T', '3', "'a'", '*', ',', '=', ':', '[',
       ']', '{', '}', '(', ')', '...', '->', '?']


def check_tokens(L, toks):
    text = ' '.join(toks)
    verdict, tree, ref = gram.judge(toks)
    kind, v = L.outcome('dshape', text)
    what = 'parsing %r' % text
    told = lambda: L.exc_text(v) if kind == 'raise' else L.show(v)
    if verdict == 'ok':
        if ref.repeated or ref.odd_keyword:
            # the constructor cannot be called like that
            if kind == 'raise' and L.exc_is(v, SyntaxError, TypeError):
                return
        try:
            want, exc = gram.build(L, tree), None
        except Raised as e:
            want, exc = None, e.exc
        if exc is not None:
            L.check(kind == 'raise', '%s gives %s, but its parts are '
                    'refused: %s' % (what, told(), L.exc_text(exc)))
            L.check(not L.exc_is(v, SyntaxError) or
                    L.exc_is(exc, SyntaxError),
                    '%s, which the grammar derives, raises %s' % (
                        what, told()))
            return
        L.check(not ref.repeated, '%s gives %s, without one of the '
                'keywords' % (what, told()))
        if kind == 'raise' and gram.ellipses(tree) > 1 and \
                L.exc_is(v, TypeError):
            return
        L.check(kind == 'ret', '%s, which the grammar derives, raises %s' % (
            what, told()))
        why = gram.mismatch(L, v, tree)
        L.check(not why, '%s: %s' % (what, why))
        return
    L.check(kind == 'raise', '%s, which the grammar does not derive, gives '
            '%s' % (what, told()))
    if L.exc_is(v, SyntaxError):
        L.check(verdict == 'syntax' or verdict == 'notyet' and
                '[ ]' in text, '%s raises %s' % (what, told()))
        return
    if ref.notyet and L.exc_is(v, NotImplementedError):
        return
    # a complete part that cannot be built may be reported first
    for node in ref.done:
        try:
            if isinstance(node[0], str):
                gram.build_dim(L, node)
            else:
                gram.build(L, node)
        except Raised as e:
            if e.exc.cls is v.cls:
                return
    raise Violation('%s, which the grammar does not derive, raises %s' % (
        what, told()))


def sequences(batch):
    def f(L):
        for toks in batch:
            check_tokens(L, toks)
    return f


def prefixes(n, tokens, start=()):
    """Viable prefixes of up to n tokens, and all their extensions."""
    layer = [tuple(start)]
    for k in range(n):
        new = []
        for p in layer:
            for t in tokens:
                q = p + (t,)
                yield q
                if gram.viable(q):
                    new.append(q)
        layer = new


# every state: (what comes before, what closes it)
CONTEXTS = [
    ('3 * ', ''), ('var * ', ''), ('... * ', ''), ('A ... * ', ''),
    ('T * ', ''), ('? ', ''), ('3 * ? ', ''), ('int32', ''), ('T', ''),
    ('{ ', '}'), ('{ a ', '}'), ('{ a : ', '}'), ('{ a : int32 ', '}'),
    ('{ a : int32 , ', '}'), ("{ 'a' : T , b : ", '}'), ('{ a : 3 * ', '}'),
    ('{ a : ', ', b : T }'), ('{ a : T , ', ', c : T }'),
    ('( ', ')'), ('( int32 ', ')'), ('( int32 , ', ')'),
    ('( 3 * ', ')'), ('( T , ', ', T )'), ('( ) ', ''), ('( T ) ', ''),
    ('( T ) -> ', ''), ('( T ) -> 3 * ', ''), ('( T ) -> ? ', ''),
    ('option [ ', ']'), ('option [ int32 ', ']'), ('option [ int32 ', ''),
    ('string [ ', ']'), ('string [ 3 , ', ']'), ("string [ 'U8' ", ']'),
    ('string [ 3 ', ']'), ("string [ 3 , 'U8' ", ']'),
    ('categorical [ [ ', '] ]'), ("categorical [ [ 'a' , ", '] ]'),
    ("categorical [ [ 'a' ", '] ]'), ("categorical [ [ 'a' ] , ", ']'),
    ("categorical [ [ 'a' ] , type = ", ']'),
    ("categorical [ [ 'a' ] , ordered = True ", ']'),
    ('categorical [ [ 3 ', '] ]'), ('categorical [ [ 3 , ', '] ]'),
    ('categorical [ [ True ', '] ]'), ('categorical [ [ True , ', '] ]'),
    ('tuple [ [ int32 ', '] ]'), ('tuple [ [ int32 , ', '] ]'),
    ("timedelta [ unit ", "'ns' ]"), ("timedelta [ unit = ", ']'),
    ("timedelta [ unit = 's' ", ']'), ("timedelta [ unit = 's' , ", ']'),
    ('decimal [ precision = 3 , ', ']'), ('decimal [ 3 , ', ']'),
    ('map [ T , ', ']'), ('map [ ', ', T ]'), ('fixed [ ', ']'),
    ('fixed [ 3 ', '] * T'), ('fixed [ 3 ]', ' * T'),
    ('funcproto [ [ T ] , ', ']'), ("struct [ [ 'a' ] , ", ']'),
    ("struct [ [ 'a' ] , [ ", '] ]'), ('{ a : ( T ) -> ', ', b : T }'),
    ('( { a : T } , ', ')'), ('? { a : ', '}'), ('3 * ( ', ')'),
    ('{ a : ?', '}'), ('{ a : { b : T ', '} }'), ('( ( T ', ') )'),
]

CORPUS = [
    'int32', 'T', '3 * int32', 'var * T', '... * T', 'A ... * int32',
    '3 * var * T * 4 * int32', '? int32', '3 * ? int32', '? 3 * int32',
    '3 * ? 4 * T', '{ }', '{ a : int32 }', '{ a : int32 , }',
    "{ a : int32 , B : T , _c : string , 'd-e' : 3 * T , }",
    '( )', '( int32 )', '( int32 , )', '( int32 , T , 3 * string )',
    '( ) -> T', '( int32 , T ) -> 3 * T', '( T , ) -> ? T',
    '( ( T ) -> X ) -> ( ( ) -> Y )', '3 * ( T , X ) -> Y',
    'option [ int32 ]', 'option [ 3 * int32 ]', 'map [ string , 3 * T ]',
    "string [ 10 ]", "string [ 'ascii' ]", "string [ 10 , 'utf-8' ]",
    "time [ 'UTC' ]", "time [ tz = 'UTC' ]", "datetime [ tz = 'UTC' ]",
    "timedelta [ unit = 'day' ]", "units [ 'm' ]", "units [ 'm' , 3 * T ]",
    "units [ 'm' , tp = T ]", 'decimal [ 3 ]', 'decimal [ 5 , 2 ]',
    'decimal [ precision = 5 , scale = 2 ]', 'decimal [ 5 , scale = 2 ]',
    "categorical [ [ 'a' , 'b' , 'c' ] ]",
    "categorical [ [ 'a' , 'b' ] , type = string , ordered = True ]",
    'categorical [ [ 1 , 2 , 3 ] , int32 ]',
    "categorical [ [ 'a' , 'b' ] , string , True ]",
    'categorical [ [ True , False ] , type = bool ]',
    'complex [ float32 ]', 'complex [ float64 ]',
    'tuple [ [ int32 , 3 * T ] ]', 'tuple [ [ ] ]',
    "struct [ [ 'a' , 'b' ] , [ T , 3 * int32 ] ]", 'struct [ [ ] , [ ] ]',
    'funcproto [ [ T , X ] , ? Y ]', 'funcproto [ [ ] , Y ]',
    '{ x : 3 * { y : ? ( A , B ) , z : var * int32 } , w : map [ T , X ] }',
    '5 * { a : option [ T ] , b : A ... * int32 , c : ... * string }',
    "( { a : T } , { b : X } ) -> { c : ? string [ 3 ] }",
    "{ int32 : int32 , var : var * T , option : X , True_ : Y }",
    'ellipsis * int32', '3 * { a : T , b : { c : X , d : { e : Y } } }',
    "map [ string , { a : ? int32 , b : ( T , ) } ]",
    "categorical [ [ '' , 'a' ] ]", 'categorical [ [ 0 , 1 , 2 ] ]',
    'categorical [ [ False ] ]', 'categorical [ [ False , True ] ]',
    "categorical [ [ 'a' ] , type = string , ordered = False ]",
    "{ '' : T , a : X }", 'decimal [ 5 , 0 ]', 'decimal [ 5 , -2 ]',
    'decimal [ 5 , scale = 0 ]', "string [ 0 ]", "units [ '' ]",
    "time [ '' ]", "datetime [ tz = '' ]", '0 * 0 * T', '{ a : 0 * T }',
    '( 0 * T )', 'option [ 0 * T ]', '( ) -> 0 * T',
    "struct [ [ '' ] , [ T ] ]", '? ( )', '? { }', '3 * ( )', '3 * { }',
    '( ( ) , )', '( ( ) , { } )', '{ a : ( ) , b : { } , c : T }',
    'map [ ( ) , { } ]', 'option [ ( ) ]', 'option [ { } ]',
    '( { } ) -> { }', 'tuple [ [ ( ) , { } ] ]', '( ) -> ( )',
    '0 * T', '10 * 200 * 3000 * { f : float64 }',
    'bool', 'json', 'bytes', 'char', 'void', 'object', 'null', 'real',
    'complex', 'int', 'intptr', 'uintptr', 'date', 'time', 'datetime',
    'timedelta', 'complex64', 'float16',
]
# what cannot be built, or is not known, at the end of something right
REFUSED = [
    'complex [ int32 ]', 'complex [ 3 * float32 ]', 'complex [ 64 ]',
    '- 3 * T', '-3 * T', '{ a : T , a : X }', "string [ 'nosuch' ]",
    "timedelta [ 'eons' ]", 'decimal [ precision = 1 , precision = 2 ]',
    "struct [ [ 'a' , 'b' ] , [ T ] ]", "struct [ [ 'a' ] , [ T , X ] ]",
    'fixed [ 3 ] * T', "typevar [ 'T' ]", 'ellipsis [ T ] * T',
    'nosuch [ 3 ]', 'int32 [ 3 ]', 'float', 'double', 'nosuch',
    'nosuch * T', 'var', '{ a : nosuch }', '( nosuch )', '? var',
    'option [ nosuch ]', '[ T ]', "[ 'a' ]", '3', 'True', "'a'",
    'string [ ]', 'string [ 3 , ]', "categorical [ [ 'a' , ] ]",
    'string [ [ [ 3 ] ] ]', "string [ [ 3 , 'a' ] ]", '? ? T', '? 3',
    '{ , }', '( , )', '{ a : T , , }', '( T , , )', '( T X )', '{ a T }',
    '{ a : T b : X }', '( T ) ->', '-> T', '( T ) -> X -> Y', 'T ...',
    '3 * ...', '3 * * T', '* T', 'T T', 'int32 int32', '{ 3 : T }',
    '{ True : T }', '{ a = T }', "timedelta [ unit : 's' ]",
    "timedelta [ 'unit' = 's' ]", "timedelta [ unit = 's' , 'ns' ]",
    "timedelta [ Unit = 's' ]", 'map [ T X ]', '( T ) X', '{ } { }',
    "categorical [ [ 'a' ] , string , True , 3 ]",
    'option [ T , T , T , T ]', 'map [ T , T , T , T , T ]',
    'int32 ...', 'var ... * T', '3 ... * T', '_x', '_x * T', '_x ... * T',
]


def edits(toks):
    toks = toks.split()
    n = len(toks)
    yield toks
    for k in range(n + 1):
        for t in TOKENS:
            yield toks[:k] + [t] + toks[k:]
    for k in range(n):
        yield toks[:k] + toks[k + 1:]
        for t in TOKENS:
            if t != toks[k]:
                yield toks[:k] + [t] + toks[k + 1:]
        if k + 1 < n:
            yield toks[:k] + [toks[k + 1], toks[k]] + toks[k + 2:]
        if k:
            yield toks[:k]
        for j in range(k + 2, min(n, k + 7) + 1):
            yield toks[:k] + toks[j:]
            yield toks[:j] + toks[k:j] + toks[j:]


def split(text):
    return text.split()


def long_ones():
    """Many parts, to see that each arrives once and in its place."""
    names = ['f%d' % k for k in range(7)]
    types = ['int8', '3 * int16', 'T', '? string', '( A , B )', 'var * X',
             '{ z : Y }']
    for n in range(2, 8):
        yield '{ %s }' % ' , '.join('%s : %s' % (a, t) for a, t in
                                    list(zip(names, types))[:n])
        yield '( %s )' % ' , '.join(types[:n])
        yield '( %s ) -> %s' % (' , '.join(types[:n]), types[n % 7])
        yield 'tuple [ [ %s ] ]' % ' , '.join(types[:n])
        yield ' * '.join(str(k) for k in range(n)) + ' * T'
        yield ' * '.join(['A', '1', 'var', 'B', '2', '...', '3'][:n]) + \
            ' * T'
        yield 'categorical [ [ %s ] ]' % ' , '.join(
            "'c%d'" % k for k in range(n))
        yield 'categorical [ [ %s ] ]' % ' , '.join(
            '%d' % k for k in range(n))
        yield '? { a : ' * n + 'T' + ' }' * n
        yield '( 3 * ' * n + 'T' + ' , )' * n
        yield '( ' * n + 'T' + ' )' * n
        yield '( X ) -> ' * n + 'T'
        yield 'option [ ' * 1 + '{ a : T } ' + ']' * 1
        yield 'map [ A , ' * n + 'T' + ' ]' * n


def many_parts():
    """Token lists of many parts with a comma too many, a part missing, the
    last part wrong, and text with spaces."""
    types = ['int8', 'T', 'string', 'X', 'bool']
    ty = [[types[k % 5]] for k in range(16)]
    ty[3] = ['3', '*', 'int16']
    ty[5] = ['?', 'string']
    ty[10] = ['var', '*', 'A', '...', '*', 'T']

    def join(parts, sep=','):
        out = []
        for k, p in enumerate(parts):
            out += ([sep] if k else []) + list(p)
        return out
    for n in (3, 5, 6, 7, 8, 9, 11, 12, 16):
        fields = [["'%s'" % (' x%d ' % k if k % 2 else 'y %d' % k), ':'] +
                  ty[k] for k in range(n)]
        plain = [['n%d' % k, ':'] + ty[k] for k in range(n)]
        names = [["'%s%d '" % (' ' * (k % 3), k)] for k in range(n)]
        lists = [(['{'], fields, ['}']), (['{'], plain, ['}']),
                 (['('], ty[:n], [')']), (['('], ty[:n], [')', '->', 'T']),
                 (['tuple', '[', '['], ty[:n], [']', ']']),
                 (['categorical', '[', '['], names, [']', ']']),
                 (['categorical', '[', '['], [['%d' % k] for k in range(n)],
                  [']', ']']),
                 (['struct', '[', '['], names,
                  [']', ',', '['] + join(ty[:n]) + [']', ']']),
                 (['funcproto', '[', '['], ty[:n], [']', ',', 'T', ']'])]
        for a, ps, b in lists:
            yield a + join(ps) + b
            yield a + join(ps) + [','] + b
            yield a + join(ps) + [',', ','] + b
            yield a + [','] + join(ps) + b
            for k in range(n):
                # a missing comma, an empty part, a wrong part
                yield a + join(ps[:k]) + join(ps[k:]) + b
                yield a + join(ps[:k] + [[]] + ps[k:]) + b
                yield a + join(ps[:k] + [ps[k] + ['->']] + ps[k + 1:]) + b
                yield a + join(ps[:k] + [ps[k][:-1]] + ps[k + 1:]) + b
            yield a + join(ps)
        dims = [['%d' % k] if k % 3 else ['var'] if k % 2 else ['N%d' % k]
                for k in range(n)]
        dims[n // 2] = ['...']
        yield join(dims + [['T']], '*')
        yield join(dims, '*')
        yield join(dims + [['T'], ['X']], '*')
        for k in range(n):
            yield join(dims[:k] + [dims[k] + ['?']] + dims[k + 1:] + [['T']],
                       '*')
            yield join(dims[:k] + [['int32']] + dims[k + 1:] + [['T']], '*')
            yield join(dims[:k] + [['?'] + dims[k]] + dims[k + 1:] + [['T']],
                       '*')
    yield ['units', '[', "' m / s '", ']']
    yield ['time', '[', "' UTC '", ']']


def cases(L, tier):
    deep = tier == 'thorough'
    seen = set()
    out = []

    def add(toks):
        t = tuple(toks)
        if t not in seen:
            seen.add(t)
            out.append(t)
    for n in (1, 2):
        for t in product(TOKENS, repeat=n):
            add(t)
    for t in product(TOKENS if deep else FEW, repeat=3):
        if gram.viable(t[:1]):
            add(t)
    for t in prefixes(6 if deep else 5, FEW):
        add(t)
    for before, after in CONTEXTS:
        b, a = split(before), split(after)
        for n in (0, 1):
            for t in product(TOKENS, repeat=n):
                add(b + list(t) + a)
                add(b + list(t))
        for t in product(TOKENS if deep else FEW, repeat=2):
            if deep or gram.viable(b + [t[0]]):
                add(b + list(t) + a)
        if deep:
            for t in prefixes(3, FEW, b):
                add(list(t) + a)
    for s in CORPUS if deep else CORPUS[:-18]:
        for t in edits(s) if deep or len(s.split()) < 16 else [split(s)]:
            add(t)
    for s in CORPUS + REFUSED + list(long_ones()):
        add(split(s))
    for t in many_parts():
        add(t)
    step = 60
    for k in range(0, len(out), step):
        yield Case('token sequences %d from %s' % (k, ' '.join(out[k])),
                   sequences(out[k:k + step]), relaxed=True)
