"""C03: pickling and copying."""
from ..explore import Case, Violation, Undecided
from ..values import *
from .common import *

EXPLAIN = (
    'Abstract interpretation of every class of datashape element with '
    'unknown parameters, alone, as a datashape with dimensions and inside '
    'every composite, through a model of the reduce protocol of Python '
    '(pickle protocols 0 to 5, copy and deepcopy: __reduce_ex__, __reduce__, '
    '__getnewargs__, __getstate__, __setstate__, __copy__, __deepcopy__, '
    'falsy state dropped by protocols 0 and 1, classes and functions saved '
    'by name).  The result must be of the same class, equal in both '
    'directions, and agree in hash, text, every public attribute and the '
    'answer of every predicate and conversion.  No hash may be saved, for '
    'hashes differ between processes.')
FLOOR = {'quick': 1500, 'thorough': 3000}
HISTORIES = False


NOTHING = object()


class Copier(object):
    def __init__(self, L):
        self.L = L
        self.i = L.i
        self.newobj = VBuiltin('copyreg.__newobj__', self.do_newobj)
        self.recon = VBuiltin('copyreg._reconstructor', self.do_recon)
        m = L.i.object_models
        m[object, '__reduce_ex__'] = VBuiltin(
            '__reduce_ex__', lambda i, a, k: self.reduce_ex(a[0], a[1]))
        m[object, '__reduce__'] = VBuiltin(
            '__reduce__', lambda i, a, k: self.default(a[0], 0))
        m[object, '__getstate__'] = VBuiltin(
            '__getstate__', lambda i, a, k: self.getstate(a[0]))

    # ---- what object provides

    def do_newobj(self, i, a, k):
        cls = a[0]
        new = i.user_lookup(cls, '__new__')
        if new is not MISSING:
            if isinstance(new, VDescr):
                new = new.fget
            return i.call(new, list(a), dict(k))
        if len(a) > 1 or k:
            i.throw(TypeError, 'object.__new__() takes exactly one argument')
        return VObj(cls, i.run.rid)

    def do_recon(self, i, a, k):
        return VObj(a[0], i.run.rid)

    def slots(self, cls):
        out = []
        for c in cls.mro:
            if isinstance(c, VClass):
                s = c.ns.get('__slots__', ())
                s = [s] if isinstance(s, str) else self.i.as_list(s)
                out += [x for x in s if x not in ('__dict__', '__weakref__')]
        return out

    def has_dict(self, cls):
        return self.i.slot_allowed(cls, ' no slot of this name ')

    def getstate(self, o):
        f = self.i.user_lookup(o.cls, '__getstate__')
        if f is not MISSING and f is not None:
            return self.i.res(self.i.call(self.i.bind(f, o, o.cls), [], {}))
        return self.default_state(o)

    def default_state(self, o):
        slots = self.slots(o.cls)
        state = None
        if self.has_dict(o.cls):
            state = self.i.dict([(k, v) for k, v in o.attrs.items()
                                 if k not in slots])
        s = [(k, o.attrs[k]) for k in slots if k in o.attrs]
        if s:
            return (state, self.i.dict(s))
        return state

    def reduce_ex(self, o, proto):
        f = self.i.user_lookup(o.cls, '__reduce__')
        if f is not MISSING:
            return self.i.call(self.i.bind(f, o, o.cls), [], {})
        return self.default(o, proto)

    def default(self, o, proto):
        i = self.i
        own = i.user_lookup(o.cls, '__getstate__') is not MISSING
        if o.payload is not None:
            raise Undecided('container subclass is copied')
        if proto < 2:
            if not own and self.slots(o.cls):
                i.throw(TypeError, 'a class that defines __slots__ without '
                        'defining __getstate__ cannot be pickled')
            state = self.getstate(o)
            args = (o.cls, object, None)
            if i.truth(state):
                return (self.recon, args, state)
            return (self.recon, args)
        ex = i.lookup_special(o, '__getnewargs_ex__')
        args = ()
        if ex is not None:
            args, kw = i.as_list(i.call(ex, [], {}))
            if i.truth(kw):
                raise Undecided('keyword arguments of __new__')
        else:
            na = i.lookup_special(o, '__getnewargs__')
            if na is not None:
                args = i.call(na, [], {})
        return (self.newobj, (o.cls,) + tuple(i.as_list(args)),
                self.getstate(o))

    def reduce(self, o, proto):
        i = self.i
        f = i.user_lookup(o.cls, '__reduce_ex__')
        if f is not MISSING and f is not None:
            r = i.call(i.bind(f, o, o.cls), [proto], {})
        else:
            r = self.reduce_ex(o, proto)
        return i.res(r)

    def set_state(self, o, state):
        i = self.i
        f = i.getattr_(o, '__setstate__', NOTHING)
        if f is not NOTHING:
            i.call(f, [state], {})
            return
        slots = None
        if isinstance(state, tuple) and len(state) == 2:
            state, slots = state
        if state is not None and i.truth(state):
            for k, v in i.pairs(state):
                i.setattr_raw(o, i.res(k), v)
        if slots is not None and i.truth(slots):
            for k, v in i.pairs(slots):
                i.setattr_(o, i.res(k), v)

    # ---- pickle

    def by_name(self, v):
        if v.module and v.module.name.startswith('dsa_'):
            return      # stands for a class of the package
        m = v.module.name if v.module else 'builtins'
        mod = self.i.modules.get(m)
        x = mod
        for part in (v.qualname or v.name).split('.'):
            x = x.ns.get(part) if isinstance(x, (VModule, VClass)) else None
        if x is not v:
            raise Violation('%r is saved by name but %s.%s is %s' % (
                v, m, v.qualname, self.L.show(x)))

    def save(self, v, proto, memo):
        i = self.i
        v = i.res(v)
        if isinstance(v, HashTerm):
            raise Violation('a hash value is saved')
        if isinstance(v, (Sym, Tmpl, Lin)):
            if isinstance(v, Sym) and v.pytype is None:
                raise Undecided('unknown value is saved')
            return ('const', v)
        if id(v) in memo:
            return memo[id(v)][1]
        node = []
        memo[id(v)] = (v, node)
        S = lambda x: self.save(x, proto, memo)
        if isinstance(v, tuple):
            node += ['tuple', [S(x) for x in v]]
        elif isinstance(v, VList):
            node += ['list', [S(x) for x in v.items]]
        elif isinstance(v, VDict):
            node += ['dict', v.pytype, [(S(a), S(b))
                                        for a, b in v.d.values()]]
        elif isinstance(v, VSet):
            node += ['set', v.frozen, [S(x) for x in v.d.values()]]
        elif isinstance(v, (VClass, VFunc)):
            self.by_name(v)
            node += ['const', v]
        elif isinstance(v, VObj):
            if isinstance(v.cls, type):
                raise Undecided('library object is saved')
            r = self.reduce(v, proto)
            if isinstance(r, str):
                mod = self.i.modules.get(v.cls.module.name)
                if mod.ns.get(r) is not v:
                    raise Violation('%s is saved by the name %s' % (
                        self.L.show(v), r))
                node += ['const', v]
            else:
                self.saveable(r)
                r = tuple(r) + (None,) * (6 - len(r))
                node += ['reduce', r[0] if r[0] in (self.newobj, self.recon)
                         else S(r[0]), [S(x) for x in i.as_list(r[1])],
                         None if r[2] is None else S(r[2]),
                         [S(x) for x in i.as_list(r[3])]
                         if r[3] is not None else [],
                         [S(x) for x in i.as_list(r[4])]
                         if r[4] is not None else [],
                         None if r[5] is None else S(r[5])]
        elif isinstance(v, VBuiltin) or not isinstance(v, AbsVal):
            import types
            if isinstance(v, (types.ModuleType, types.GeneratorType)):
                raise Violation('%r cannot be pickled' % (v,))
            node += ['const', v]
        else:
            raise Violation('%s cannot be pickled' % self.L.show(v))
        return node

    def saveable(self, r):
        if not isinstance(r, tuple) or not 2 <= len(r) <= 6:
            raise Violation('__reduce__ returned %s' % self.L.show(r))

    def load(self, node, memo):
        i = self.i
        if not isinstance(node, (list, tuple)):
            return node
        if node[0] == 'const':
            return node[1]
        if id(node) in memo:
            return memo[id(node)]
        G = lambda x: self.load(x, memo)
        kind = node[0]
        if kind == 'tuple':
            r = tuple(G(x) for x in node[1])
        elif kind == 'list':
            r = i.list([])
            memo[id(node)] = r
            r.items.extend([G(x) for x in node[1]])
        elif kind == 'dict':
            r = i.dict([], node[1])
            memo[id(node)] = r
            for a, b in node[2]:
                i.dict_set(r, G(a), G(b))
        elif kind == 'set':
            r = i.set([G(x) for x in node[2]], frozen=node[1])
        else:
            fn = node[1] if isinstance(node[1], VBuiltin) else G(node[1])
            r = i.res(i.call(fn, [G(x) for x in node[2]], {}))
            memo[id(node)] = r
            self.finish(r, None if node[3] is None else G(node[3]),
                        [G(x) for x in node[4]], [G(x) for x in node[5]],
                        None if node[6] is None else G(node[6]),
                        node[3] is not None)
        memo[id(node)] = r
        return r

    def finish(self, r, state, items, pairs, setter, has_state):
        i = self.i
        if has_state:
            if setter is not None:
                i.call(setter, [r, state], {})
            else:
                self.set_state(r, state)
        for x in items:
            i.call(i.getattr_(r, 'append'), [x], {})
        for p in pairs:
            a, b = i.as_list(p)
            i.setitem(r, a, b)

    def pickled(self, v, proto):
        return self.load(self.save(v, proto, {}), {})

    # ---- copy

    def copy(self, v):
        i = self.i
        v = i.res(v)
        if not isinstance(v, VObj):
            if isinstance(v, VList):
                return i.list(list(v.items))
            if isinstance(v, VDict):
                return i.dict([p for p in v.d.values()], v.pytype)
            return v
        f = i.user_lookup(v.cls, '__copy__')
        if f is not MISSING and f is not None:
            return i.res(i.call(i.bind(f, v, v.cls), [], {}))
        return self.rebuild(v, lambda x: x, None)

    def deepcopy(self, v, memo):
        i = self.i
        v = i.res(v)
        if id(v) in memo:
            return memo[id(v)][1]
        D = lambda x: self.deepcopy(x, memo)
        if isinstance(v, tuple):
            r = tuple(D(x) for x in v)
            if all(a is b for a, b in zip(r, v)):
                r = v
        elif isinstance(v, VList):
            r = i.list([])
            memo[id(v)] = (v, r)
            r.items.extend([D(x) for x in v.items])
        elif isinstance(v, VDict):
            r = i.dict([], v.pytype)
            memo[id(v)] = (v, r)
            for a, b in list(v.d.values()):
                i.dict_set(r, D(a), D(b))
        elif isinstance(v, VSet):
            r = i.set([D(x) for x in v.d.values()], frozen=v.frozen)
        elif isinstance(v, VObj) and isinstance(v.cls, VClass):
            f = i.getattr_(v, '__deepcopy__', NOTHING)
            if f is not NOTHING and f is not None:
                d = i.dict([])
                r = i.res(i.call(f, [d], {}))
            else:
                r = self.rebuild(v, D, memo)
        elif isinstance(v, VIter):
            raise Violation('%s cannot be copied' % self.L.show(v))
        else:
            r = v
        memo[id(v)] = (v, r)
        return r

    def rebuild(self, v, D, memo):
        i = self.i
        r = self.reduce(v, 4)
        if isinstance(r, str):
            return v
        self.saveable(r)
        r = tuple(r) + (None,) * (6 - len(r))
        out = i.res(i.call(r[0], [D(x) for x in i.as_list(r[1])], {}))
        if memo is not None:
            memo[id(v)] = (v, out)
        self.finish(out, None if r[2] is None else D(r[2]),
                    [] if r[3] is None else [D(x) for x in i.as_list(r[3])],
                    [] if r[4] is None else [D(x) for x in i.as_list(r[4])],
                    r[5], r[2] is not None)
        return out


METHODS = ['pickle 0', 'pickle 1', 'pickle 2', 'pickle 5', 'copy', 'deepcopy']


def transfer(C, v, how):
    if how == 'copy':
        return C.copy(v)
    if how == 'deepcopy':
        return C.deepcopy(v, {})
    return C.pickled(v, int(how[7:]))


# functions whose answers on the original and on the copy must agree
ASK = ['isdimension', 'isfixed', 'istabular', 'isnumeric', 'isboolean',
       'isdatelike', 'isscalar', 'isrecord', 'iscollection', 'has_var_dim',
       'has_ellipsis', 'isreal', 'to_numpy', 'to_numpy_dtype', 'from_numpy']


def same(L, a, b):
    a, b = L.i.res(a), L.i.res(b)
    if isinstance(a, (tuple, VList)) and isinstance(b, (tuple, VList)):
        x, y = L.items(a), L.items(b)
        return (L.i.type_of(a) is L.i.type_of(b) and len(x) == len(y) and
                all(same(L, p, q) for p, q in zip(x, y)))
    if isinstance(a, VDict) and isinstance(b, VDict):
        return same(L, tuple(a.d.values()), tuple(b.d.values()))
    if isinstance(a, VObj) and isinstance(b, VObj):
        if a.cls is not b.cls:
            return False
        if not L.isinst(a, 'Mono'):
            return True
    if isinstance(a, (VBound, VFunc, VBuiltin)) and type(a) is type(b):
        return True
    return L.eq(a, b)


def agree(L, what, x, y):
    """x and y are outcomes."""
    if x[0] != y[0]:
        raise Violation('%s: %s against %s on the copy' % (
            what, *[o[0] + ' ' + (L.show(o[1]) if o[0] == 'ret' else
                                  L.exc_text(o[1])) for o in (x, y)]))
    if x[0] == 'raise':
        L.check(x[1].cls is y[1].cls, '%s raises %s, on the copy %s' % (
            what, L.exc_text(x[1]), L.exc_text(y[1])))
    else:
        L.check(same(L, x[1], y[1]), '%s is %s, on the copy %s' % (
            what, L.show(x[1]), L.show(y[1])))


def public(L, cls):
    out = []
    for c in cls.mro:
        if not isinstance(c, VClass):
            continue
        s = c.ns.get('__slots__', ())
        s = [s] if isinstance(s, str) else L.i.as_list(s)
        for n in list(c.ns) + list(s):
            n = L.i.res(n)
            if isinstance(n, str) and not n.startswith('_') and \
                    n not in out:
                if isinstance(c.ns.get(n), (VFunc, VClass)):
                    continue
                out.append(n)
    for n in ('name', 'composite'):
        if n not in out:
            out.append(n)
    return out


def attr_outcome(L, o, n):
    try:
        return 'ret', L.i.res(L.i.getattr_(o, n))
    except Raised as e:
        return 'raise', e.exc


def text_outcome(L, f, o):
    try:
        return 'ret', L.i.res(f(o))
    except Raised as e:
        return 'raise', e.exc


def compare(L, x, y, what):
    L.check(isinstance(y, VObj) and y.cls is x.cls,
            '%s gives %s' % (what, L.show(y)))
    for a, b in ((x, y), (y, x)):
        L.check(L.eq(a, b), '%s is not equal: %s' % (what, L.show(y)))
        L.check(not L.ne(a, b), '%s differs (!=): %s' % (
            what, L.show(y)))
    L.check(same_hash(L, hash_of(L, x), hash_of(L, y)),
            '%s hashes differently' % what)
    agree(L, 'str after ' + what, text_outcome(L, L.i.str_, x),
          text_outcome(L, L.i.str_, y))
    agree(L, 'repr after ' + what, text_outcome(L, L.i.repr_, x),
          text_outcome(L, L.i.repr_, y))
    for n in public(L, x.cls):
        agree(L, 'attribute %s after %s' % (n, what),
              attr_outcome(L, x, n), attr_outcome(L, y, n))
    agree(L, 'len after ' + what, L.outcome(L.i.builtins['len'], x),
          L.outcome(L.i.builtins['len'], y))
    agree(L, 'item 0 after ' + what, item(L, x), item(L, y))
    agree(L, 'subarray after ' + what, sub(L, x), sub(L, y))
    agree(L, 'subshape after ' + what, subshape(L, x), subshape(L, y))
    agree(L, 'product after ' + what, product_(L, x), product_(L, y))
    for fn in ASK:
        try:
            fn = L.api(fn)
        except Exception:
            continue
        agree(L, '%s after %s' % (L.fn_name(fn), what),
              L.outcome(fn, x), L.outcome(fn, y))


def transfer_case(build, how, warm):
    def f(L):
        C = Copier(L)
        x = build(L)
        if warm:
            # anything that might leave something behind on the object
            hash_of(L, x)
            text_outcome(L, L.i.str_, x)
            text_outcome(L, L.i.repr_, x)
            for n in public(L, x.cls):
                attr_outcome(L, x, n)
        try:
            y = transfer(C, x, how)
        except Raised as e:
            raise Violation('%s of %s raises %s' % (how, L.show(x),
                                                    L.exc_text(e.exc)))
        compare(L, x, y, '%s of %s' % (how, L.show(x)))
    return f


def item(L, o):
    try:
        return 'ret', L.i.getitem(o, 0)
    except Raised as e:
        return 'raise', e.exc


def sub(L, o):
    try:
        return 'ret', L.i.call(L.i.getattr_(o, 'subarray'), [1], {})
    except Raised as e:
        return 'raise', e.exc


def subshape(L, o):
    try:
        return 'ret', L.i.getitem(L.i.getattr_(o, 'subshape'), 0)
    except Raised as e:
        return 'raise', e.exc


def product_(L, o):
    try:
        return 'ret', L.i.binop('*', 3, o)
    except Raised as e:
        return 'raise', e.exc


def contexts(L):
    """(name, wants measure, builder over the element)"""
    yield 'alone', False, lambda L, x: x
    yield 'datashape', True, lambda L, x: L.new('DataShape', x)
    yield 'two dimensions', True, lambda L, x: L.new(
        'DataShape', L.new('Fixed', L.int('n', 0)), L.new('Var'), x)
    yield 'option', True, lambda L, x: L.new('Option', x)
    yield 'option in datashape', True, lambda L, x: L.new(
        'DataShape', L.new('Fixed', L.int('n', 0)), L.new('Option', x))
    yield 'record', True, lambda L, x: L.new('Record', L.list(
        [('f', L.new('DataShape', L.new('Var'), x)), ('g', sk(L))]))
    yield 'tuple', True, lambda L, x: L.new('Tuple', L.list(
        [L.new('DataShape', L.new('Fixed', L.int('n', 0)), x)]))
    yield 'map', True, lambda L, x: L.new('Map', x, L.new(
        'DataShape', L.new('Var'), x))
    yield 'function', True, lambda L, x: L.new('Function', x, sk(L))
    yield 'categories', True, lambda L, x: L.new(
        'Categorical', L.list([L.text('category')]), x, True)
    yield 'units', True, lambda L, x: L.new('Units', L.text('unit'), L.new(
        'DataShape', L.new('Var'), x))


def cases(L, tier):
    deep = tier == 'thorough'
    for s in shapes():
        for cname, wants, ctx in contexts(L):
            if wants and not s.measure:
                continue
            for how in METHODS:
                for warm in (False, True):
                    if warm and not deep and cname not in (
                            'alone', 'two dimensions', 'record', 'option'):
                        continue
                    yield Case('%s %s %s%s' % (
                        s.name, cname, how, ' used before' if warm else ''),
                        transfer_case(lambda L, s=s, ctx=ctx:
                                      ctx(L, s.make(L)[1]), how, warm),
                        relaxed=True)
    for s in shapes():
        if s.dim:
            for how in METHODS:
                for warm in (False, True):
                    yield Case('%s as dimension %s%s' % (
                        s.name, how, ' used before' if warm else ''),
                        transfer_case(lambda L, s=s: L.new(
                            'DataShape', s.make(L)[1], sk(L)), how, warm),
                        relaxed=True)
    if deep:
        ctxs = [c for c in contexts(L) if c[1]]
        for n1, _, c1 in ctxs:
            for n2, _, c2 in ctxs:
                for how in METHODS:
                    yield Case('%s in %s %s' % (n1, n2, how), transfer_case(
                        lambda L, c1=c1, c2=c2: c2(L, c1(L, sk(L))), how,
                        True), relaxed=True)
    # classes that hold nothing at all, and the shared instances
    for n in SCALARS + SINGLES:
        for how in METHODS:
            yield Case('shared %s %s' % (n, how), transfer_case(
                lambda L, n=n: L.api(n, 'datashape.coretypes'), how, True))
