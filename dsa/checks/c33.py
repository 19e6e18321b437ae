"""C33: parsing with a symbol table of one's own."""
from ..explore import Case, Violation
from ..values import *
from .common import *
from . import gram
from .c06 import CORPUS, REFUSED, long_ones

EXPLAIN = (
    'Abstract interpretation of the parser with symbol tables whose entries '
    'are all replaced: every constructor records its call and returns a '
    'marker of its own, every type and dimension is a marker.  On a corpus '
    'that uses each production, and on text with names only such a table '
    'knows, the result must be the tree of calls that an independent '
    'predictive parser derives from the documented grammar: the entry of '
    'the right table, the arguments in order, the keywords by name.  With '
    'each entry that a text uses removed in turn a syntax error is due, '
    'though the default table has it; with nothing but those entries the '
    'result is the same.  Tables share nothing with each other.')
FLOOR = {'quick': 250, 'thorough': 250}
HISTORIES = False

TABLES = ('dtype', 'dtype_constr', 'dim', 'dim_constr')
EXTRA = {
    'dtype': ('mytype', 'point', 'both', 'fixed', 'a_b1', 'map', 'decimal'),
    'dtype_constr': ('myconstr', 'point', 'int32', 'var', 'nested'),
    'dim': ('mydim', 'both', 'lazy', 'string', 'struct'),
    'dim_constr': (),
}
TEXTS = [
    'mytype', 'point', 'a_b1', '3 * mytype', 'mydim * mytype',
    'lazy * mydim * 3 * var * point', '{ a : mytype , b : mydim * point }',
    '( mytype , point )', '( mytype ) -> mydim * point', '? mytype',
    '? mydim * mytype', 'mydim * ? mytype', 'both', 'both * both',
    '3 * both', '{ a : both , b : both * T }', '( both , both * both )',
    'fixed', '3 * fixed', 'decimal', 'map', 'string * string',
    'struct * { a : T }', 'string * string [ 3 ]', '{ string : string }',
    'myconstr [ 3 ]', "myconstr [ 'a' ]", 'myconstr [ T ]',
    'myconstr [ mytype ]', 'myconstr [ mydim * mytype ]',
    'myconstr [ True ]', 'myconstr [ False , 0 , \'\' ]',
    "myconstr [ 1 , 'b' , T , 2 , 'c' , 3 * X ]",
    'myconstr [ [ ] ]', 'myconstr [ [ 1 , 2 , 3 ] , [ 4 ] ]',
    "myconstr [ [ 'a' , 'b' ] , [ T , mydim * X ] , [ True , False ] ]",
    'myconstr [ k = 3 ]', "myconstr [ one = 3 , two = 'b' , three = T ]",
    "myconstr [ 3 , 'x' , z = 0 , y = '' , w = [ ] , v = False ]",
    "myconstr [ T , k = [ 1 , 2 ] , j = [ 'a' ] , i = [ mytype ] ]",
    'myconstr [ k = 3 * mytype , j = both * T , i = both ]',
    'myconstr [ myconstr [ myconstr [ T ] , 3 ] , k = myconstr [ X ] ]',
    'nested [ { a : myconstr [ 3 ] } , ( point [ 3 ] , point ) ]',
    'point [ T ]', '3 * point [ 3 ]', 'int32 [ 3 ]', 'var [ T ]',
    'var * var [ 3 ]', 'int32 [ int32 ]', 'both * point [ both ]',
    '{ a : point , b : point [ 1 ] , c : point [ 1 , 2 ] }',
    '( point [ T ] ) -> point [ X ]', '? point [ T ]', '3 * ? point [ T ]',
    'lazy * { a : lazy * { b : lazy * mytype } }',
    'option [ myconstr [ T ] ]', 'mydim * ( mydim * T , ) -> mydim * X',
    'map [ mytype , myconstr [ 1 ] ]', 'N * mytype', 'A ... * mytype',
    '... * mydim * mytype', 'mydim * ... * A * 0 * T',
]
BAD = [
    'unknown', 'unknown * T', '3 * unknown', 'unknown [ 3 ]', 'mydim',
    'mydim [ 3 ]', 'mydim [ 3 ] * T', 'mytype * T', 'myconstr',
    'myconstr * T', '{ a : unknown }', '( mydim )', '? mydim',
    'mytype [ 3 ]', 'lazy * lazy', '3 * lazy', 'myconstr [ unknown ]',
    'myconstr [ k = unknown ]', 'a_b', 'a_b12', 'mytyp', 'mytypes',
    'both [ 3 ]', 'point * T', 'myconstr [ mydim ]',
    'myconstr [ [ mydim ] ]', '{ a : T , b : mydim }', '( ) -> mydim',
]


class Table(object):
    def __init__(self, L, kind, without=None, only=None, bare=False):
        """A symbol table of markers."""
        self.L = L
        self.calls = []
        self.names = {t: [] for t in TABLES}
        self.count = 0
        self.kind = kind
        self.marks = {}
        if only is not None or bare:
            self.sym = L.new(L.api('TypeSymbolTable'), True)
        else:
            self.sym = L.new(L.api('TypeSymbolTable'))
        dflt = {'dtype': gram.DTYPES,
                'dtype_constr': list(gram.CONSTRS) + ['typevar'],
                'dim': gram.DIMS, 'dim_constr': gram.DIM_CONSTRS}
        for t in TABLES:
            d = L.attr(self.sym, t)
            for n in list(dflt[t]) + list(EXTRA[t]):
                if (t, n) == without:
                    if n in dflt[t]:
                        L.i.call(L.i.getattr_(d, 'pop'), [n], {})
                    continue
                if only is not None and (t, n) not in only:
                    continue
                self.names[t].append(n)
                e = self.mark(t) if not t.endswith('constr') else \
                    self.recorder(t, n)
                self.marks[t, n] = e
                L.i.setitem(d, n, e)

    def mark(self, table):
        self.count += 1
        L = self.L
        k = self.count % 3 if self.kind == 'mixed' and \
            not table.startswith('dim') else 0
        if k == 1:
            return L.new('Record', L.list([]))
        if k == 2:
            return L.new('Tuple', L.list([]))
        return L.new('TypeVar', 'M%d' % self.count)

    def recorder(self, t, n):
        def run(i, a, k):
            m = self.mark(t)
            self.calls.append((t, n, list(a), dict(k), m))
            return m
        return VBuiltin('%s of %s' % (t, n), run)

    def made(self, x):
        for c in self.calls:
            if c[-1] is x:
                return c

    # ---- is x what the tree says

    def ds(self, x, tree):
        L = self.L
        dims, m = tree
        self.need(L.isinst(x, 'DataShape'), '%s is no datashape', x)
        ps = L.items(L.attr(x, 'parameters'))
        self.need(len(ps) == len(dims) + 1, '%s has %d parts instead of %d',
                  x, len(ps), len(dims) + 1)
        for p, d in zip(ps, dims):
            if d[0] in ('fixed', 'typevar'):
                self.call(p, 'dim_constr', d[0], [d[1]])
            elif d[0] == 'ellipsis' and d[1] is not None:
                self.call(p, 'dim_constr', 'ellipsis', [d[1]])
            else:
                self.entry(p, 'dim', {'var': 'var', 'ellipsis': 'ellipsis'}
                           .get(d[0]) or d[1])
        m, x = tree[1], ps[-1]
        k = m[0]
        if k == 'name':
            self.entry(x, 'dtype', m[1])
        elif k == 'typevar':
            self.call(x, 'dtype_constr', 'typevar', [m[1]])
        elif k == 'option':
            self.call(x, 'dtype_constr', 'option', [m[1]])
        elif k == 'record':
            self.call(x, 'dtype_constr', 'struct',
                      [[n for n, _ in m[1]], [t for _, t in m[1]]])
        elif k == 'tuple':
            self.call(x, 'dtype_constr', 'tuple', [m[1]])
        elif k == 'func':
            self.call(x, 'dtype_constr', 'funcproto', [m[1], m[2]])
        else:
            self.call(x, 'dtype_constr', m[1], m[2], m[3])

    def entry(self, x, table, name):
        self.need(x is self.marks.get((table, name)),
                  '%s is not the entry of %s in %s', x, name, table)

    def call(self, x, table, name, args, kw=()):
        c = self.made(x)
        self.need(c is not None, '%s was not built by %s of %s', x, name,
                  table)
        self.need(c[:2] == (table, name), '%s was built by %s of %s, not %s '
                  'of %s', x, c[1], c[0], name, table)
        self.need(len(c[2]) == len(args) and set(c[3]) == set(dict(kw)),
                  '%s of %s was called with %s and %s', name, table,
                  tuple(c[2]), tuple(c[3]))
        for a, b in list(zip(c[2], args)) + [(c[3][n], v) for n, v in kw]:
            self.arg(a, b, name)

    def arg(self, a, b, name):
        L = self.L
        a = L.i.res(a)
        if gram.is_ds(b):
            self.ds(a, b)
        elif isinstance(b, list):
            self.need(isinstance(a, (VList, tuple)) and
                      len(L.items(a)) == len(b),
                      'an argument of %s is %s', name, a)
            for x, y in zip(L.items(a), b):
                self.arg(x, y, name)
        else:
            self.need(type(a) is type(b) and a == b,
                      'an argument of %s is %s instead of %s', name, a, b)

    def need(self, cond, fmt, *a):
        if not cond:
            raise Violation('%s: ' % self.what + fmt % tuple(
                self.L.show(x) if isinstance(x, (AbsVal, tuple)) else x
                for x in a))

    def parse(self, text):
        return self.L.outcome(self.L.api('parse', 'datashape.parser'), text,
                              self.sym)


def used(tree, out=None):
    """Entries a tree uses."""
    out = set() if out is None else out
    if gram.is_ds(tree):
        for d in tree[0]:
            out.add(('dim_constr', d[0]) if d[0] in ('fixed', 'typevar') else
                    ('dim_constr', 'ellipsis') if d[0] == 'ellipsis' and d[1]
                    else ('dim', d[1] if d[0] == 'dim' else d[0]))
        m = tree[1]
        k = m[0]
        out.add(('dtype', m[1]) if k == 'name' else ('dtype_constr', {
            'record': 'struct', 'func': 'funcproto', 'constr': m[1]}.get(
                k, k)))
        for x in m[1:]:
            used(x, out)
    elif isinstance(tree, (list, tuple)):
        for x in tree:
            used(x, out)
    return out


def names_of(t):
    return t.names['dtype'], t.names['dtype_constr'], t.names['dim'], \
        t.names['dim_constr']


ALL = tuple(list(a) + list(EXTRA[t]) for t, a in zip(TABLES, (
    gram.DTYPES, gram.CONSTRS, gram.DIMS, gram.DIM_CONSTRS)))
ALL = (ALL[0], ALL[1] + ['typevar'], ALL[2], ALL[3])


def told(L, r):
    return '%s' % (L.show(r[1]) if r[0] == 'ret' else
                   'raises ' + L.exc_text(r[1]))


def builds(toks, kind, only):
    def f(L):
        v, tree, ref = gram.judge(toks, ALL)
        t = Table(L, kind, only=used(tree) if only else None)
        t.what = 'parsing %r with a table of its own' % ' '.join(toks)
        r = t.parse(' '.join(toks))
        if r[0] != 'ret':
            raise Violation('%s %s' % (t.what, told(L, r)))
        t.ds(r[1], tree)
    return f


def refused(toks, without=None):
    def f(L):
        t = Table(L, 'plain', without=without)
        r = t.parse(' '.join(toks))
        L.check(r[0] == 'raise' and L.exc_is(r[1], SyntaxError),
                'parsing %r with a table %s gives %s' % (
                    ' '.join(toks), 'without %s in %s' % without[::-1]
                    if without else 'that does not know it', told(L, r)))
    return f


def content(L, sym):
    return {t: {L.i.res(k): v for k, v in L.i.pairs(L.attr(sym, t))}
            for t in TABLES}


def tables(how):
    def f(L):
        new = L.api('TypeSymbolTable')
        world = L.attr(L.mod('datashape.type_symbol_table'), 'sym')
        before = content(L, world)
        a = L.new(new, how != 'default')
        if how != 'default':
            c = content(L, a)
            for t in TABLES:
                L.check(not c[t], 'a bare table has %s in %s' % (
                    sorted(c[t]), t))
        if how == 'filled':
            L.call(L.attr(a, 'add_default_types'))
        if how != 'bare':
            c = content(L, a)
            b = content(L, L.new(new))
            for t in TABLES:
                for n in list(before[t]) + list(c[t]):
                    x, y, z = (m[t].get(n, MISSING) for m in (c, b, before))
                    L.check(x is y and (x is z), '%s in %s is %s in a new '
                            'table and %s in the default one' % (
                                n, t, L.show(x), L.show(z)))
        # what is done to one does not happen to the others
        others = [world, L.new(new), L.new(new, True)]
        was = [content(L, o) for o in others]
        for t in TABLES:
            d = L.attr(a, t)
            for k, o in enumerate(others):
                L.check(L.attr(o, t) is not d, 'two symbol tables share '
                        'their table %s' % t)
            L.i.setitem(d, 'mine', L.new('TypeVar', 'Mine'))
            if L.truth(L.i.contains(d, 'typevar')):
                L.i.call(L.i.getattr_(d, 'pop'), ['typevar'], {})
        for t in TABLES:
            L.i.setitem(L.attr(world, t), 'yours', L.new('TypeVar', 'Yours'))
        c = content(L, L.new(new)), content(L, a)
        for t in TABLES:
            L.check('yours' not in c[0][t] and 'mine' not in c[0][t] and
                    'yours' not in c[1][t], 'a symbol table has in %s what '
                    'was added to another one' % t)
            L.i.call(L.i.getattr_(L.attr(world, t), 'pop'), ['yours'], {})
        L.check([content(L, o) for o in others] == was,
                'a change of one symbol table changes another')
        r = L.outcome('dshape', 'mine')
        L.check(r[0] == 'raise' and L.exc_is(r[1], SyntaxError),
                'a name of another symbol table is known to dshape: %s' %
                told(L, r))
        r = L.outcome('dshape', 'N * T')
        L.check(r[0] == 'ret', 'parsing N * T with the default table %s '
                'after another was changed' % told(L, r))
    return f


def world(table, name, text):
    """What is added to the default table is known to dshape."""
    def f(L):
        sym = L.attr(L.mod('datashape.type_symbol_table'), 'sym')
        r = L.outcome('dshape', text)
        L.check(r[0] == 'raise' and L.exc_is(r[1], SyntaxError),
                'parsing %r %s' % (text, told(L, r)))
        m = L.new('TypeVar', 'Mine')
        got = []

        def run(i, a, k):
            got.append((list(a), dict(k)))
            return m
        L.i.setitem(L.attr(sym, table), name, m if table in (
            'dtype', 'dim') else VBuiltin(name, run))
        r = L.outcome('dshape', text)
        L.check(r[0] == 'ret' and m in L.items(L.attr(r[1], 'parameters')),
                'parsing %r with the entry added to the default table %s' % (
                    text, told(L, r)))
    return f


def cases(L, tier):
    texts = []
    for s in TEXTS + CORPUS + list(long_ones()):
        toks = s.split()
        v, tree, ref = gram.judge(toks, ALL)
        if v != 'ok' or ref.repeated or ref.odd_keyword:
            assert s not in TEXTS, s
            continue
        if toks not in texts:
            texts.append(toks)
    for toks in texts:
        s = ' '.join(toks)
        yield Case('build %s' % s, builds(toks, 'plain', False),
                   relaxed=True)
        yield Case('build with only what it needs %s' % s,
                   builds(toks, 'mixed', True), relaxed=True)
        tree = gram.judge(toks, ALL)[1]
        for w in sorted(used(tree)):
            names = tuple([n for n in ns if (t, n) != w]
                          for t, ns in zip(TABLES, ALL))
            v = gram.judge(toks, names)[0]
            if v == 'ok' and w not in used(gram.judge(toks, names)[1]):
                continue        # a name of two tables: the other entry
            yield Case('%s without %s in %s' % (s, w[1], w[0]),
                       refused(toks, w), relaxed=True)
    for s in BAD:
        assert gram.judge(s.split(), ALL)[0] != 'ok', s
        yield Case('refuse %s' % s, refused(s.split()), relaxed=True)
    for how in ('default', 'bare', 'filled'):
        yield Case('tables %s' % how, tables(how), relaxed=True)
    yield Case('type for dshape', world('dtype', 'mytype', '3 * mytype'))
    yield Case('dimension for dshape', world('dim', 'mydim', 'mydim * T'))
    yield Case('constructor for dshape', world(
        'dtype_constr', 'myconstr', "3 * myconstr [ 3 , k = 'a' ]"))
