"""Reference grammar of datashape text, written from the documentation: a
predictive parser of token sequences, and what each tree denotes."""
from ..values import *
from .common import *

DTYPES = {
    'bool': 'bool_', 'int8': 'int8', 'int16': 'int16', 'int32': 'int32',
    'int64': 'int64', 'int': 'int32', 'uint8': 'uint8', 'uint16': 'uint16',
    'uint32': 'uint32', 'uint64': 'uint64', 'float16': 'float16',
    'float32': 'float32', 'float64': 'float64', 'complex64': 'complex64',
    'complex128': 'complex128', 'real': 'float64', 'complex': 'complex128',
    'string': 'string', 'json': 'json', 'bytes': 'bytes_', 'char': 'char',
    'date': 'date_', 'time': 'time_', 'datetime': 'datetime_',
    'timedelta': 'timedelta_', 'null': 'null', 'void': 'void',
    'object': 'object_', 'intptr': 'int64', 'uintptr': 'uint64'}
CONSTRS = {'complex': None, 'string': 'String', 'struct': None,
           'tuple': 'Tuple', 'funcproto': None, 'option': 'Option',
           'map': 'Map', 'time': 'Time', 'datetime': 'DateTime',
           'timedelta': 'TimeDelta', 'units': 'Units', 'decimal': 'Decimal',
           'categorical': 'Categorical'}
DIMS = ('var', 'ellipsis')
DIM_CONSTRS = ('fixed', 'typevar', 'ellipsis')


class Syn(Exception):
    def __init__(self, pos, since=None):
        self.pos = pos
        self.since = since      # where an unfinished dimension or keyword began


class NotYet(Exception):
    """A dimension constructor."""


def kind(t):
    """Kind of the text of one token."""
    if t in ('True', 'False'):
        return 'bool'
    if t[0].isdigit() or t[0] == '-' and t[1:].isdigit():
        return 'int'
    if t[0] in '"\'':
        return 'str'
    if t[0] == '_':
        return 'other'
    if t[0].isalpha():
        return 'lower' if t[0].islower() else 'upper'
    return t


def value(t):
    k = kind(t)
    return (t == 'True' if k == 'bool' else int(t) if k == 'int' else
            t[1:-1] if k == 'str' else t)


class Ref(object):
    """tokens: texts of single tokens (strings without escapes)"""

    def __init__(self, toks, names=None):
        # names known as types, as constructors of types, as dimensions and
        # as constructors of dimensions
        self.dtypes, self.constrs, self.dims, self.dim_constrs = names or (
            DTYPES, CONSTRS, DIMS, DIM_CONSTRS)
        self.t = list(toks)
        self.k = [kind(x) for x in toks] + [None, None]
        self.p = 0
        self.done = []          # constructs completed so far
        self.repeated = False   # a keyword twice
        self.notyet = False     # a dimension constructor was met
        self.odd_keyword = False

    def run(self):
        ds = self.datashape()
        if self.k[self.p] is not None:
            raise Syn(self.p)
        return ds

    @property
    def tok(self):
        return self.k[self.p]

    def want(self, k):
        if self.tok != k:
            raise Syn(self.p)
        self.p += 1

    def made(self, node):
        self.done.append(node)
        return node

    def datashape(self):
        if self.tok == '?':
            self.p += 1
            return self.made(([], ('option', self.nooption())))
        return self.nooption()

    def nooption(self):
        dims = []
        while True:
            start = self.p
            k = self.tok
            if dims and k == '?':
                self.p += 1
                return self.made((dims, ('option', self.nooption())))
            dim = None
            if k == 'upper':
                name = self.t[self.p]
                nxt = self.k[self.p + 1]
                if nxt == '...':
                    self.p += 2
                    dim = ('ellipsis', name)
                elif nxt == '*':
                    self.p += 1
                    dim = ('typevar', name)
                else:
                    self.p += 1
                    return self.made((dims, ('typevar', name)))
            elif k == 'int':
                if self.k[self.p + 1] != '*':
                    raise Syn(self.p + 1, start)
                dim = ('fixed', value(self.t[self.p]))
                self.p += 1
            elif k == '...':
                dim = ('ellipsis', None)
                self.p += 1
            elif k == 'lower':
                name = self.t[self.p]
                if self.k[self.p + 1] == '[':
                    if name in self.dim_constrs:
                        self.p += 2
                        self.notyet = True
                        if self.tok != ']':
                            self.args()
                        self.want(']')
                        raise NotYet()
                    if name not in self.constrs:
                        raise Syn(self.p)
                    self.p += 2
                    args, kw = self.args()
                    self.want(']')
                    return self.made((dims, ('constr', name, args, kw)))
                if name in self.dims and (self.k[self.p + 1] == '*' or
                                          name not in self.dtypes):
                    dim = ('dim', name) if name not in DIMS else \
                         ('var',) if name == 'var' else ('ellipsis', None)
                    self.p += 1
                elif name in self.dtypes:
                    self.p += 1
                    return self.made((dims, ('name', name)))
                elif name in self.constrs or name in self.dim_constrs:
                    raise Syn(self.p + 1, start)
                else:
                    raise Syn(self.p)
            elif k == '{':
                return self.made((dims, self.record()))
            elif k == '(':
                return self.made((dims, self.tuple()))
            else:
                raise Syn(self.p)
            self.done.append(dim)
            if self.tok != '*':
                raise Syn(self.p, start)
            self.p += 1
            dims.append(dim)

    def args(self):
        args, kw = [], []
        while True:
            if self.tok == 'lower' and self.k[self.p + 1] == '=':
                break
            args.append(self.arg())
            if self.tok != ',':
                return args, kw
            self.p += 1
        while True:
            if self.tok != 'lower':
                raise Syn(self.p)
            name = self.t[self.p]
            self.p += 1
            if self.tok != '=':
                raise Syn(self.p, self.p - 1)
            self.p += 1
            if name in self.dtypes or name in self.dims:
                self.odd_keyword = True
            if name in [n for n, _ in kw]:
                self.repeated = True
            kw.append((name, self.arg()))
            if self.tok != ',':
                return args, kw
            self.p += 1

    def arg(self):
        k = self.tok
        if k in ('str', 'bool') or k == 'int' and self.k[self.p + 1] != '*':
            self.p += 1
            return value(self.t[self.p - 1])
        if k == '[':
            self.p += 1
            if self.tok == ']':
                self.p += 1
                return []
            k = self.tok
            plain = k in ('str', 'bool') or k == 'int' and \
                self.k[self.p + 1] != '*'
            out = []
            while True:
                if plain:
                    self.want(k)
                    out.append(value(self.t[self.p - 1]))
                else:
                    out.append(self.datashape())
                if self.tok != ',':
                    break
                self.p += 1
            self.want(']')
            return out
        return self.datashape()

    def record(self):
        self.want('{')
        fields = []
        while self.tok != '}':
            if self.tok not in ('lower', 'upper', 'other', 'str'):
                raise Syn(self.p)
            name = value(self.t[self.p])
            self.p += 1
            self.want(':')
            fields.append((name, self.datashape()))
            if self.tok != ',':
                break
            self.p += 1
        self.want('}')
        return ('record', fields)

    def tuple(self):
        self.want('(')
        items = []
        while self.tok != ')':
            items.append(self.datashape())
            if self.tok != ',':
                break
            self.p += 1
        self.want(')')
        if self.tok == '->':
            self.p += 1
            return ('func', items, self.datashape())
        return ('tuple', items)


def judge(toks, names=None):
    """(verdict, tree or position, reference parser)"""
    r = Ref(toks, names)
    try:
        return 'ok', r.run(), r
    except Syn as e:
        r.since = e.since
        return 'syntax', e.pos, r
    except NotYet:
        return 'notyet', None, r


def viable(toks):
    v, p, r = judge(toks)
    return v == 'ok' or v == 'syntax' and p >= len(toks)


def ellipses(tree):
    """Number of wildcards anywhere."""
    if isinstance(tree, tuple):
        if tree[:1] == ('ellipsis',):
            return 1
        return sum(map(ellipses, tree))
    if isinstance(tree, list):
        return sum(map(ellipses, tree))
    return 0


# -------------------------------------------------- what a tree stands for

def is_ds(x):
    return isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], list)


def build(L, tree):
    """The datashape of a tree, by the public constructors."""
    dims, m = tree
    return call(L, 'DataShape', [build_dim(L, d) for d in dims] +
                [build_measure(L, m)])


def call(L, f, args, kw=()):
    return L.i.res(L.i.call(L.api(f), list(args), dict(kw)))


def build_dim(L, d):
    if d[0] == 'fixed':
        return call(L, 'Fixed', [d[1]])
    if d[0] == 'var':
        return call(L, 'Var', [])
    if d[0] == 'typevar':
        return call(L, 'TypeVar', [d[1]])
    return call(L, 'Ellipsis', [call(L, 'TypeVar', [d[1]])] if d[1] else [])


def build_arg(L, a):
    if is_ds(a):
        return build(L, a)
    if isinstance(a, list):
        return L.list([build_arg(L, x) for x in a])
    return a


def build_measure(L, m):
    k = m[0]
    if k == 'name':
        return L.api(DTYPES[m[1]])
    if k == 'typevar':
        return call(L, 'TypeVar', [m[1]])
    if k == 'option':
        return call(L, 'Option', [build(L, m[1])])
    if k == 'record':
        return call(L, 'Record', [L.list([(n, build(L, t))
                                          for n, t in m[1]])])
    if k == 'tuple':
        return call(L, 'Tuple', [L.list([build(L, t) for t in m[1]])])
    if k == 'func':
        return call(L, 'Function', [build(L, t) for t in m[1]] +
                    [build(L, m[2])])
    name, args, kw = m[1:]
    args = [build_arg(L, a) for a in args]
    kw = [(n, build_arg(L, a)) for n, a in kw]
    if CONSTRS[name]:
        return call(L, CONSTRS[name], args, kw)
    return call(L, 'constr_' + name, args, kw)


HELPERS = '''
import datashape
from datashape.coretypes import DataShape, Record, Function


def constr_complex(tp):
    if tp == DataShape(datashape.float32):
        return datashape.complex64
    if tp == DataShape(datashape.float64):
        return datashape.complex128
    raise TypeError('complex')


def constr_struct(names, dshapes):
    if len(names) != len(dshapes):
        raise ValueError('struct')
    return Record(list(zip(names, dshapes)))


def constr_funcproto(args, ret):
    return Function(*(list(args) + [ret]))
'''


def mismatch(L, ds, tree):
    """Why the datashape is not what the tree says, or None."""
    dims, m = tree
    if not L.isinst(ds, 'DataShape'):
        return '%s is not a datashape' % L.show(ds)
    ps = L.items(L.attr(ds, 'parameters'))
    if len(ps) != len(dims) + 1:
        return '%s has %d parts instead of %d' % (L.show(ds), len(ps),
                                                  len(dims) + 1)
    for p, d in zip(ps, dims):
        why = mismatch_dim(L, p, d)
        if why:
            return why
    return mismatch_measure(L, ps[-1], m)


def mismatch_dim(L, p, d):
    good = False
    if d[0] == 'fixed':
        good = L.isinst(p, 'Fixed') and L.i.res(L.attr(p, 'val')) == d[1]
    elif d[0] == 'var':
        good = L.isinst(p, 'Var')
    elif d[0] == 'typevar':
        good = L.isinst(p, 'TypeVar') and L.i.res(
            L.attr(p, 'symbol')) == d[1]
    elif L.isinst(p, 'Ellipsis'):
        tv = L.attr(p, 'typevar')
        good = tv is None if d[1] is None else (
            L.isinst(tv, 'TypeVar') and
            L.i.res(L.attr(tv, 'symbol')) == d[1])
    return None if good else 'the dimension %s is %s' % (d, L.show(p))


def all_match(L, what, got, want):
    if len(got) != len(want):
        return '%s: %d instead of %d' % (what, len(got), len(want))
    for g, w in zip(got, want):
        why = mismatch(L, g, w)
        if why:
            return why


def mismatch_measure(L, x, m):
    k = m[0]
    no = '%s is %s' % (m, L.show(x))
    if k == 'name':
        want = L.api(DTYPES[m[1]])
        return None if x is want or (
            L.i.type_of(x) is L.i.type_of(want) and L.eq(x, want)) else no
    if k == 'typevar':
        return None if L.isinst(x, 'TypeVar') and L.i.res(
            L.attr(x, 'symbol')) == m[1] else no
    if k == 'option':
        return no if not L.isinst(x, 'Option') else mismatch(
            L, as_ds(L, L.attr(x, 'ty')), m[1])
    if k == 'record':
        if not L.isinst(x, 'Record'):
            return no
        fs = [L.items(f) for f in L.items(L.attr(x, 'fields'))]
        names = [L.i.res(f[0]) for f in fs]
        if names != [n for n, _ in m[1]]:
            return 'the fields are %s' % names
        return all_match(L, 'fields', [as_ds(L, f[1]) for f in fs],
                         [t for _, t in m[1]])
    if k == 'tuple':
        if not L.isinst(x, 'Tuple'):
            return no
        return all_match(L, 'items', [as_ds(L, t) for t in L.items(
            L.attr(x, 'dshapes'))], m[1])
    if k == 'func':
        if not L.isinst(x, 'Function'):
            return no
        return all_match(L, 'arguments', [as_ds(L, t) for t in L.items(
            L.attr(x, 'argtypes'))], m[1]) or mismatch(
                L, as_ds(L, L.attr(x, 'restype')), m[2])
    name, args, kw = m[1:]
    if name == 'option' and len(args) == 1 and not kw and is_ds(args[0]):
        return mismatch_measure(L, x, ('option', args[0]))
    if name == 'struct' and len(args) == 2 and not kw and \
            isinstance(args[0], list) and isinstance(args[1], list) and \
            len(args[0]) == len(args[1]) and all(map(is_ds, args[1])) and \
            all(isinstance(n, str) for n in args[0]):
        return mismatch_measure(L, x, ('record',
                                       list(zip(args[0], args[1]))))
    if name == 'map' and len(args) == 2 and not kw and all(map(is_ds, args)):
        if not L.isinst(x, 'Map'):
            return no
        return all_match(L, 'key and value', [as_ds(L, L.attr(x, n)) for n in
                                              ('key', 'value')], args)
    want = build_measure(L, m)
    if L.i.type_of(x) is not L.i.type_of(want):
        return no
    if not (L.eq(x, want) and L.eq(want, x)):
        return '%s instead of %s' % (L.show(x), L.show(want))
    return None


def as_ds(L, t):
    """A bare measure counts as the datashape of that one element."""
    if L.isinst(t, 'DataShape'):
        return t
    return L.new('DataShape', t)
