"""C05: the shared type tables keep their meaning."""
from ..explore import Case, Violation
from ..values import *
from .common import *
from . import c03, c04, disc
from .ops import *

EXPLAIN = (
    'Effect analysis by abstract interpretation: every public operation on '
    'every class of datashape with unknown parameters, every constructor, '
    'parsing of every form of text (well formed or not), discovery, copying '
    'and pickling; afterwards every type name, type-set name, symbol and '
    'type attribute of a public module must mean what it meant after import '
    'and no entry may be new.  Naming a new datashape, sized type or type '
    'set with an unknown name must add exactly that entry, and with any '
    'taken name must raise TypeError and leave the table as it was.')
FLOOR = {'quick': 1500, 'thorough': 3000}
HISTORIES = False

TYPES, SETS = 'type names', 'type-set names'
SYMS = ['dtype', 'dtype_constr', 'dim', 'dim_constr']
# should the registry not be a plain dict any more
NAMES = ['bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16',
         'uint32', 'uint64', 'float16', 'float32', 'float64', 'int', 'real',
         'complex64', 'complex128', 'date', 'time', 'datetime', 'timedelta',
         'null', 'intptr', 'uintptr', 'void', 'object', 'float', 'double',
         'bytes', 'string', 'char', 'complex[float32]', 'complex[float64]']
SET_NAMES = ['signed', 'unsigned', 'integral', 'floating', 'complexes',
             'boolean', 'real', 'numeric', 'scalar']


def types_dict(L):
    t = L.api('Type', 'datashape.coretypes')
    d = t.ns.get('_registry')
    return d if isinstance(d, VDict) else None


def sets_dict(L):
    r = L.api('registry', 'datashape.typesets')
    d = r.attrs.get('registry') if isinstance(r, VObj) else None
    return d if isinstance(d, VDict) else None


def sym_dict(L, n):
    return L.attr(L.api('sym', 'datashape.type_symbol_table'), n)


def text_keys(d):
    out = []
    for a, b in d.d.values():
        out.append(a)
    return out


def tables(L):
    """{(table, name): value} of everything that is known by a name, and the
    names in each table."""
    i = L.i
    out, keys = {}, {}
    d = types_dict(L)
    names = text_keys(d) if d else NAMES
    keys[TYPES] = names if d else None
    look = L.attr(L.api('Type', 'datashape.coretypes'), 'lookup_type')
    for n in names:
        out[TYPES, n] = L.call(look, n)
    d = sets_dict(L)
    names = text_keys(d) if d else SET_NAMES
    keys[SETS] = names if d else None
    reg = L.api('registry', 'datashape.typesets')
    for n in names:
        try:
            out[SETS, n] = i.res(i.getitem(reg, n))
        except Raised as e:
            raise Violation('looking up the type set %s raises %s' % (
                L.show(n), L.exc_text(e.exc)))
    for t in SYMS:
        d = sym_dict(L, t)
        ks = [i.res(k) for k in i.as_list(d)]
        keys[t] = ks
        for n in ks:
            out[t, n] = i.res(i.getitem(d, n))
    return out, keys


def public(L):
    """The types bound to public names of the package."""
    out = {}
    for m in ('datashape', 'datashape.coretypes', 'datashape.typesets'):
        for n, v in L.mod(m).ns.items():
            v = L.i.res(v)
            if not n.startswith('_') and isinstance(v, VObj) and \
                    isinstance(v.cls, VClass) and L.isinst(v, 'Mono'):
                out[m, n] = v
    return out


class Snapshot(object):
    def __init__(self, L):
        self.L = L
        self.vals, self.keys = tables(L)
        self.copies = {k: (v, clone(L, v)) for k, v in self.vals.items()}
        self.public = {k: (v, clone(L, v)) for k, v in public(L).items()}
        self.muts = len(L.i.run.muts)

    def check(self, what, new=None, added=None):
        """Everything means what it meant; only `new` (table, name) was
        added."""
        L = self.L
        if len(L.i.run.muts) == self.muts and new is None:
            return
        vals, keys = tables(L)
        for t, ks in self.keys.items():
            if ks is None:
                continue
            for k in ks:
                L.check(has_key(L, keys[t], k), '%s: the entry %s of %s is '
                        'gone' % (what, L.show(k), t))
            for k in keys[t]:
                if has_key(L, ks, k):
                    continue
                L.check(new is not None and t == new[0] and
                        L.i.truth(L.i.compare('==', k, new[1])),
                        '%s adds the entry %s to %s' % (what, L.show(k), t))
        for key, (v, c) in self.copies.items():
            if key not in vals:
                raise Violation('%s: %s %s is gone' % (
                    what, key[0], L.show(key[1])))
            same_meaning(L, '%s: %s %s' % (what, key[0], L.show(key[1])),
                         v, c, vals[key])
        if new is not None:
            found = [v for (t, n), v in vals.items() if t == new[0] and
                     L.i.truth(L.i.compare('==', n, new[1]))]
            L.check(len(found) == 1, '%s adds no entry' % what)
            L.check(found[0] is added or L.eq(found[0], added),
                    '%s registers %s' % (what, L.show(found[0])))
        now = public(L)
        for key, (v, c) in self.public.items():
            L.check(key in now, '%s: %s.%s is gone' % ((what,) + key))
            same_meaning(L, '%s: %s.%s' % ((what,) + key), v, c, now[key])


def has_key(L, ks, k):
    for x in ks:
        if x is k or isinstance(x, str) and isinstance(k, str) and x == k:
            return True
    return any(L.i.truth(L.i.compare('==', x, k)) for x in ks
               if not (isinstance(x, str) and isinstance(k, str)))


def same_meaning(L, what, v, c, now):
    if now is v and untouched(L, v, c):
        return
    if not isinstance(c, VObj) or isinstance(c.cls, VClass) and \
            not L.isinst(c, 'Mono') and not isinstance(now, VObj):
        L.check(now is v, '%s became %s' % (what, L.show(now)))
        return
    if not isinstance(now, VObj):
        raise Violation('%s became %s' % (what, L.show(now)))
    check_as_before(L, what, now, c)


# ------------------------------------------------------------------ the cases

def performing(build, op):
    def f(L):
        s = Snapshot(L)
        x = build(L)
        perform(L, op, x)
        s.check('%s on %s' % (op, L.show(x)))
    return f


def quiet(what, call):
    """call(L) may fail with an exception; the tables stay as they are."""
    def f(L):
        s = Snapshot(L)
        try:
            call(L)
        except Raised:
            pass
        except Violation:
            # a failing constructor is another property's business
            pass
        s.check(what)
    return f


TEXTS = [
    'int32', '3 * int32', 'var * int32', '... * int32', 'A... * int32',
    'A... * 3 * T', 'M * N * float64', 'Payload', '?int32', '?3 * T',
    '3 * ?{a: int32}', '{a: int32, b: 3 * T}', '{"a b": T, }', '{}',
    '{int32: float64, T: X}', '()', '(int32)', '(int32, T, )', '() -> T',
    '(int32, var * T) -> ?X', 'string[10]', "string['ascii']",
    "string[10, 'utf-16']", 'complex[float32]', 'complex[float64]',
    'option[int32]', 'map[string, 3 * T]', "time[tz='UTC']",
    "datetime[tz='UTC']", "datetime['UTC']", "timedelta[unit='ns']",
    "timedelta['day']", "units['m']", "units['m', 3 * int32]",
    'decimal[18]', 'decimal[precision=7, scale=4]',
    "categorical[['a', 'b'], type=string, ordered=True]",
    'categorical[[1, 2]]', "categorical[['a']]", 'typevar["T"]',
    'tuple[[int32, T]]', "struct[['a'], [T]]", 'funcproto[[int32], T]',
    'A... * {x: B... * int32, y: ... * T}', '0 * null', 'void',
    # failing
    '', '*', '3', '3 *', '3 * ', 'int3', 'int33 * int32', '? ?int32', '?',
    '{a}', '{a:}', '{a: int32', '{a: int32, a: T}', '(int32', '(,)',
    '(T) ->', 'string[]', 'string[10', 'string[10, 10, 10]', 'string[T]',
    "string['latin1']", 'complex[int32]', 'complex[64]', 'option[3]',
    'option[T, X]', 'map[T]', 'time[3]', 'time[zz="UTC"]',
    'timedelta["eons"]', 'units[3]', 'units["m", 3]', 'decimal["x"]',
    'categorical[3]', 'typevar["t"]', 'typevar[3]', 'tuple[3]', 'struct[3]',
    'struct[["a"], [3]]', 'funcproto[3]', 'fixed[3] * int32',
    'fixed[3', 'typevar["T"] * int32', 'ellipsis[T] * int32', 'var',
    '... * ... * int32', '{x: A... * ... * int32}', 'T * ...', 'int32 * T',
    '3 * 4', '$', '3 * int32 $', '"a"', 'True', 'True * int32', '-3 * int32',
    'a: int32', 'T... * T...', 'nosuch[3]', 'Nosuch[3]', 'int32[3]',
]


def naming(kind, name_of, taken, members=('int8', 'bool_')):
    """Give a new object a name: name_of(L) -> the name."""
    def f(L):
        table = SETS if kind == 'TypeSet' else TYPES
        i = L.i
        n = name_of(L)
        s = Snapshot(L)
        known = s.keys[table] if s.keys[table] is not None else (
            SET_NAMES if table == SETS else NAMES)
        in_use = [k for k in known
                  if i.truth(i.compare('==', i.res(k), n))]
        if taken is not None:
            L.check(bool(in_use) == taken,
                    '%s is no %s' % (L.show(n), table)) if taken else None
        x = None
        what = 'naming a %s %s' % (kind, L.show(n))
        try:
            if kind == 'CType':
                x = i.call(L.api('CType'), [n, L.int('size', 0),
                                            L.int('align', 1)], {})
            elif kind == 'DataShape':
                x = i.call(L.api('DataShape'), [L.new('Fixed', 3), sk(L)],
                           {'name': n})
            elif kind == 'TypeSet':
                x = i.call(L.api('TypeSet'), [L.api(m) for m in members],
                           {'name': n})
            elif kind == 'register':
                x = sk(L)
                i.call(L.attr(L.api('Type', 'datashape.coretypes'),
                              'register'), [n, x], {})
            out = 'ret'
        except Raised as e:
            out = e.exc
        if in_use:
            L.check(out != 'ret', '%s, which is taken, is accepted' % what)
            L.check(L.exc_is(out, TypeError), '%s, which is taken, raises %s'
                    % (what, L.exc_text(out)))
            s.check(what)
        elif kind in ('DataShape', 'TypeSet') and not L.truth(n):
            s.check(what)
        else:
            L.check(out == 'ret', '%s raises %s' % (
                what, L.exc_text(out) if out != 'ret' else ''))
            s.check(what, (table, n), i.res(x))
            # the name is taken now
            s = Snapshot(L)
            try:
                if kind == 'TypeSet':
                    i.call(L.api('TypeSet'), [L.api('int16')], {'name': n})
                else:
                    i.call(L.api('DataShape'), [L.api('var'), L.api('int8')],
                           {'name': n})
            except Raised as e:
                L.check(L.exc_is(e.exc, TypeError),
                        '%s twice raises %s' % (what, L.exc_text(e.exc)))
            else:
                raise Violation('%s twice is accepted' % what)
            s.check(what + ' twice')
    return f


def same_again(kind, n):
    """Register under a taken name the very object that has it."""
    def f(L):
        i = L.i
        s = Snapshot(L)
        table = SETS if kind != 'type' else TYPES
        x = s.vals.get((table, n))
        if x is None:
            x = [v for (t, k), v in s.vals.items()
                 if t == table and i.truth(i.compare('==', k, n))][0]
        what = '%s again as %s' % (kind, n)
        try:
            if kind == 'type':
                i.call(L.attr(L.api('Type', 'datashape.coretypes'),
                              'register'), [n, x], {})
            elif kind == 'set':
                i.call(L.attr(L.api('registry', 'datashape.typesets'),
                              'register_typeset'), [n, x], {})
            else:
                i.call(L.api('TypeSet'), [i.res(m) for m in L.items(x)],
                       {'name': n})
        except Raised as e:
            L.check(L.exc_is(e.exc, TypeError), '%s raises %s' % (
                what, L.exc_text(e.exc)))
        else:
            raise Violation('%s is accepted' % what)
        s.check(what)
    return f


def same_ctype(n):
    """A sized type exactly like the one that has the name."""
    def f(L):
        i = L.i
        s = Snapshot(L)
        x = s.vals[TYPES, n]
        what = 'another type %s' % n
        try:
            i.call(L.api('CType'), [n, L.attr(x, 'itemsize'),
                                    L.attr(x, 'alignment')], {})
        except Raised as e:
            L.check(L.exc_is(e.exc, TypeError), '%s raises %s' % (
                what, L.exc_text(e.exc)))
        else:
            raise Violation('%s is accepted' % what)
        s.check(what)
    return f


def same_shape(L):
    """Name two equal datashapes alike."""
    i = L.i
    make = lambda: i.call(L.api('DataShape'), [L.new('Fixed', 3),
                                               L.api('int32')],
                          {'name': 'my_shape'})
    x = make()
    s = Snapshot(L)
    try:
        make()
    except Raised as e:
        L.check(L.exc_is(e.exc, TypeError),
                'naming an equal datashape alike raises %s' %
                L.exc_text(e.exc))
    else:
        raise Violation('naming an equal datashape alike is accepted')
    s.check('naming an equal datashape alike')


def named_objects(L):
    yield 'named datashape', lambda L: L.new(
        'DataShape', L.new('Fixed', 3), L.api('int32'), name='my_shape')
    yield 'named set', lambda L: L.new('TypeSet', L.api('int8'),
                                       name='my_set')
    yield 'named type', lambda L: L.new('CType', 'my_type', 4, 4)


def after_naming(build, op):
    """Operations on a named object add nothing."""
    def f(L):
        x = build(L)
        s = Snapshot(L)
        perform(L, op, x)
        s.check('%s on %s' % (op, L.show(x)))
    return f


CTOR_ARGS = {
    'nothing': lambda L: ((), {}),
    'number': lambda L: ((L.int('n'),), {}),
    'text': lambda L: (('m',), {}),
    'type': lambda L: ((L.api('int32'),), {}),
    'skolem': lambda L: ((sk(L),), {}),
    'datashape': lambda L: ((L.new('DataShape', L.new('Var'), sk(L)),), {}),
    'two types': lambda L: ((sk(L), sk(L, 'Y')), {}),
    'three types': lambda L: ((sk(L), sk(L, 'Y'), L.api('int8')), {}),
    'dimension and type': lambda L: ((L.new('Var'), sk(L)), {}),
    'list of types': lambda L: ((L.list([sk(L), L.api('int32')]),), {}),
    'fields': lambda L: ((L.list([('a', sk(L)), ('int32', sk(L, 'Y'))]),),
                         {}),
    'equal fields': lambda L: ((L.list([('a', sk(L)), ('a', sk(L))]),), {}),
    'texts': lambda L: ((L.list(['a', 'int32']),), {}),
    'text and type': lambda L: (('m', L.new('DataShape', sk(L))), {}),
    'none': lambda L: ((None,), {}),
    'upper text': lambda L: (('Int32',), {}),
    'taken text': lambda L: (('int32',), {}),
    'two numbers': lambda L: ((L.int('n'), L.int('m')), {}),
    'number and text': lambda L: ((L.int('n'), 'U8'), {}),
    'keyword': lambda L: ((), {'tz': 'UTC'}),
    'unit': lambda L: ((), {'unit': 'ns'}),
    'unnamed': lambda L: ((L.new('Var'), sk(L)), {'name': None}),
    'bad keyword': lambda L: ((sk(L),), {'nosuch': 1}),
}
CTORS = ['Fixed', 'Var', 'Ellipsis', 'TypeVar', 'Null', 'Date', 'Time',
         'DateTime', 'TimeDelta', 'Units', 'Bytes', 'String', 'Decimal',
         'DataShape', 'Option', 'Map', 'Function', 'Record', 'Tuple', 'JSON',
         'Categorical', 'TypeSet', 'dshape', 'dshapes', 'from_numpy',
         'discover', 'cat_dshapes', 'CType.from_numpy_dtype', 'promote',
         'to_numpy', 'to_numpy_dtype', 'validate', 'maxtype']


def constructing(name, args):
    def call(L):
        a, k = CTOR_ARGS[args](L)
        return L.i.call(L.api(name), list(a), dict(k))
    return call


def copying(build, how):
    def f(L):
        x = build(L)
        s = Snapshot(L)
        try:
            c03.transfer(c03.Copier(L) if hasattr(c03, 'Copier') else
                         c03.Protocol(L), x, how)
        except (Raised, Violation):
            pass
        s.check('%s of %s' % (how, L.show(x)))
    return f


def cases(L, tier):
    deep = tier == 'thorough'
    for t in TEXTS:
        yield Case('parsing %r' % t, quiet(
            'parsing %r' % t,
            lambda L, t=t: L.i.call(L.api('dshape'), [t], {})), relaxed=True)
    for c in CTORS:
        for a in CTOR_ARGS:
            yield Case('%s of %s' % (c, a), quiet(
                '%s of %s' % (c, a), constructing(c, a)), relaxed=True,
                max_undecided=4)
    for v in (['int', 'int'], [['int', 'int'], ['int', 'none']], [],
              ('dict', [('int32', 'int'), ('a', ['int'])]),
              ('ordered', [('b', 'int'), ('a', ['int'])]),
              [('dict', [('a', 'int')]), ('dict', [('b', 'text')])],
              ('tuple', [['int'], ['int', 'int']]), [['int'], ['int', 'int']],
              'text', 'int', 'none', 'delta', 'bytes', 'complex', 'time'):
        yield Case('discover of %s' % disc.name(v), quiet(
            'discover of %s' % disc.name(v),
            lambda L, v=v: L.i.call(L.api('discover'), [disc.make(L, v)],
                                    {})), relaxed=True)
    for kind in ('CType', 'DataShape', 'TypeSet', 'register'):
        names = SET_NAMES if kind == 'TypeSet' else NAMES
        for n in names:
            yield Case('%s named %s' % (kind, n),
                       naming(kind, lambda L, n=n: n, True), relaxed=True)
        for n in ('Record', 'DataShape', 'Fixed', 'Mono', 'CType') \
                if kind != 'TypeSet' else ():
            yield Case('%s named %s' % (kind, n),
                       naming(kind, lambda L, n=n: n, None), relaxed=True)
        for n in ('fresh', 'Fresh', 'int3', ' int32', 'numeric', 'var'):
            yield Case('%s named %s' % (kind, n),
                       naming(kind, lambda L, n=n: n, None), relaxed=True)
        yield Case('%s with any name' % kind, naming(
            kind, lambda L: L.text('name', NONEMPTY), None), relaxed=True)
    for ms in ((), ('int8',), ('string', 'int8', 'null')):
        for n in ('fresh', 'numeric', 'boolean'):
            yield Case('set of %d named %s' % (len(ms), n), naming(
                'TypeSet', lambda L, n=n: n, n != 'fresh' or None, ms),
                relaxed=True)
    for n in NAMES:
        yield Case('type again as %s' % n, same_again('type', n),
                   relaxed=True)
        if n in ('int8', 'int32', 'float64', 'bool', 'complex[float32]',
                 'void', 'object', 'uint64'):
            yield Case('type like %s' % n, same_ctype(n), relaxed=True)
    for n in SET_NAMES:
        for kind in ('set', 'equal set'):
            yield Case('%s again as %s' % (kind, n), same_again(kind, n),
                       relaxed=True)
    yield Case('equal datashapes of one name', same_shape, relaxed=True)
    for n, b in named_objects(L):
        for op in OPS:
            yield Case('%s on %s' % (op, n), after_naming(b, op),
                       relaxed=True, max_paths=150, max_undecided=4)
        for how in ('copy', 'deepcopy', 'pickle 0', 'pickle 2', 'pickle 4'):
            yield Case('%s of %s' % (how, n), copying(b, how), relaxed=True)
    vals = list(c04.values(L))
    for vn, v in vals:
        for op in OPS:
            yield Case('%s on %s' % (op, vn), performing(v, op),
                       relaxed=True, max_paths=4000 if deep else 150,
                       max_undecided=40 if deep else 4)
        for how in ('copy', 'deepcopy', 'pickle 0', 'pickle 2', 'pickle 4'):
            yield Case('%s of %s' % (how, vn), copying(v, how), relaxed=True)
