"""Abstract interpreter for the analysed package.

It evaluates syntax trees of the repository over abstract values (values.py).
Where an abstract condition is not decided, the trace is partitioned: the
driver (explore.py) enumerates the alternatives.  Nothing of the repository is
imported or executed.
"""
import ast
import builtins as _b
import importlib
import os
import sys
import types

from .values import *
from . import rx
from .values import _Return, _Break, _Continue
from .library import Library

sys.setrecursionlimit(100000)


class Env(object):
    __slots__ = ('vars', 'parent', 'local', 'func', 'module', 'self_cls',
                 'globals_', 'nonlocals')

    def __init__(self, parent, module, local=(), func=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.local = local
        self.func = func
        self.self_cls = None
        self.globals_ = ()
        self.nonlocals = ()


class ClassEnv(Env):
    __slots__ = ()


class Run(object):
    """State of one partition (one replay)."""
    def __init__(self, rid, prefix):
        self.rid = rid
        self.prefix = prefix
        self.taken = []         # [(choice, n, label)]
        self.trail = []
        self.muts = []          # writes to values born before this run
        self.imprecise = []     # reasons
        self.terms = {}
        self.signs = {}
        self.relations = []     # [(linear expression, its sign)]
        self.steps = 0
        self.depth = 0
        self.nsym = 0
        self.funcs = {}
        self.impure = []
        self.ambiguous = []
        self.warned = []
        self.unordered = 0      # reads of something in arbitrary order
        self.ranks = []         # hashes compared by size


class FuncInfo(object):
    """Static facts of a function node."""
    __slots__ = ('local', 'globals_', 'nonlocals', 'isgen')


def _scan(body, args=None):
    local, glob, nonl = set(), set(), set()
    isgen = [False]

    def target(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                              ast.Del)):
                local.add(n.id)

    def walk(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            local.add(n.name)
            for d in n.decorator_list:
                walk(d)
            if not isinstance(n, ast.ClassDef):
                for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                    walk(d)
            else:
                for d in n.bases + [k.value for k in n.keywords]:
                    walk(d)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                walk(d)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            # names bound in the comprehension are its own; walrus leaks
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    local.add(c.target.id)
                if isinstance(c, (ast.Yield, ast.YieldFrom)):
                    isgen[0] = True
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            local.add(n.id)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name != '*':
                    local.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            local.add(n.name)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            isgen[0] = True
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            local.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            local.add(n.rest)
        for c in ast.iter_child_nodes(n):
            walk(c)

    for s in body:
        walk(s)
    if args is not None:
        for a in (args.posonlyargs + args.args + args.kwonlyargs):
            local.add(a.arg)
        if args.vararg:
            local.add(args.vararg.arg)
        if args.kwarg:
            local.add(args.kwarg.arg)
    fi = FuncInfo()
    fi.local = frozenset(local - glob - nonl)
    fi.globals_ = frozenset(glob)
    fi.nonlocals = frozenset(nonl)
    fi.isgen = isgen[0]
    return fi


def has_yield(node):
    """Does this statement contain a yield of its own function?"""
    cached = getattr(node, '_has_yield', None)
    if cached is None:
        cached = False
        stack = [node]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                cached = True
                break
            for c in ast.iter_child_nodes(n):
                if not isinstance(c, (ast.FunctionDef, ast.Lambda,
                                      ast.ClassDef, ast.GeneratorExp)):
                    stack.append(c)
        node._has_yield = cached
    return cached


class Interp(Library):

    def __init__(self, root, package):
        self.root = root                # directory holding the package
        self.package = package
        self.modules = {}               # dotted name -> VModule
        self.stubs = {}                 # dotted name -> dict of values
        self.trees = {}
        self.run = Run(0, ())
        self.loading = True
        self.re_trace = None            # log of pattern calls
        self.order = 'ins'              # set iteration order of this run
        self.max_steps = 400000
        self.max_depth = 220
        self.overrides = {}             # qualname -> host function
        self.models = {}                # id(host callable) -> model
        self._keep = []
        self.nodes_seen = set()
        self.cur = None
        self.stmt_dispatch = {}
        self.expr_dispatch = {}
        for n in dir(self):
            if n.startswith('s_'):
                self.stmt_dispatch[getattr(ast, n[2:])] = getattr(self, n)
            elif n.startswith('e_'):
                self.expr_dispatch[getattr(ast, n[2:])] = getattr(self, n)
        self._curfunc = None
        self._handling = None
        self.relaxed = False
        self.install()

    # ------------------------------------------------------------ plumbing

    def step(self):
        r = self.run
        r.steps += 1
        if r.steps > self.max_steps:
            raise Budget('steps')

    def choose(self, n, label=''):
        """Partition the current trace into n alternatives."""
        r = self.run
        if self.loading:
            # module level code is deterministic; an undecided condition
            # there takes the first alternative and is reported
            r.imprecise.append('choice at import: %s' % label)
            return 0
        if n == 1:
            return 0
        i = len(r.taken)
        c = r.prefix[i] if i < len(r.prefix) else 0
        r.taken.append((c, n, label, self.where()))
        return c

    def where(self):
        n = self.cur
        if n is None:
            return ''
        return '%s:%s' % (getattr(n, '_file', '?'),
                          getattr(n, 'lineno', '?'))

    def imprecise(self, why):
        self.run.imprecise.append('%s at %s' % (why, self.where()))

    def top(self, why):
        self.run.nsym += 1
        s = Sym(None, 'top%d' % self.run.nsym)
        s.attrs['why'] = '%s at %s' % (why, self.where())
        return s

    def mark(self, obj, undo, what):
        """Record a write to obj; undo it after the run if obj is older."""
        r = self.run
        if obj.birth != r.rid:
            r.trail.append(undo)
            if not self.loading:
                r.muts.append((obj, what, self.where(), self.fname()))

    def fname(self):
        f = getattr(self, '_curfunc', None)
        return f.qualname if f is not None else '<module>'

    def throw(self, cls, *args):
        raise Raised(self.make_exc(cls, args))

    def make_exc(self, cls, args):
        o = VObj(cls, self.run.rid)
        o.attrs['args'] = tuple(args)
        return o

    # containers -----------------------------------------------------------

    def list(self, items):
        return VList(list(items), self.run.rid)

    def dict(self, pairs=(), pytype=dict):
        d = VDict(self.run.rid, pytype)
        for k, v in pairs:
            self.dict_set(d, k, v)
        return d

    def set(self, items=(), frozen=False):
        s = VSet(self.run.rid, frozen)
        for x in items:
            self.set_add(s, x)
        return s

    # ------------------------------------------------------------- symbols

    def sym(self, pytype, name, **kw):
        return Sym(pytype, name, **kw)

    def term(self, op, args, pytype, **kw):
        key = (op,) + tuple(self.key(a) for a in args)
        t = self.run.terms.get(key)
        if t is None:
            t = Sym(pytype, '%s(%s)' % (op, ','.join(self.show(a)
                                                     for a in args)), **kw)
            t.term = (op, tuple(args))
            self.run.terms[key] = t
        return self.res(t)

    def key(self, v):
        """Hashable identity of an abstract value, for function terms."""
        v = self.res(v)
        if isinstance(v, tuple):
            return ('t',) + tuple(self.key(x) for x in v)
        if isinstance(v, Tmpl):
            return ('T',) + tuple(p if isinstance(p, str)
                                  else (p.fmt, self.key(p.val))
                                  for p in v.parts)
        if isinstance(v, Lin):
            return ('L', v.const) + tuple(sorted((id(s), c) for s, c in
                                                 v.coefs.items()))
        if isinstance(v, HashTerm):
            return ('H', v.op) + tuple(self.key(a) for a in v.args)
        if isinstance(v, VList):
            return ('l',) + tuple(self.key(x) for x in v.items)
        if isinstance(v, (VBound,)):
            return ('b', self.key(v.func), self.key(v.self_))
        if isinstance(v, AbsVal):
            return ('id', id(v))
        try:
            hash(v)
        except TypeError:
            return ('id', id(v))
        return ('c', type(v).__name__, v)

    def show(self, v):
        v = self.res(v)
        if isinstance(v, Sym):
            return v.name
        if isinstance(v, VList):
            return '[%s]' % ', '.join(self.show(x) for x in v.items)
        if isinstance(v, tuple):
            return '(%s)' % ', '.join(self.show(x) for x in v)
        if isinstance(v, VObj):
            if v.attrs:
                return '%s(%s)' % (cls_name(v.cls), ', '.join(
                    '%s=%s' % (k, self.show(x)) for k, x in v.attrs.items()
                    if k not in ('_hash', 'composite')
                    and not (k == 'name' and x is None)))
            return cls_name(v.cls) + '()'
        if isinstance(v, VDict):
            return '{%s}' % ', '.join('%s: %s' % (self.show(k), self.show(x))
                                      for k, x in v.d.values())
        if isinstance(v, VSet):
            return '{%s}' % ', '.join(self.show(k) for k in v.d.values())
        return repr(v)

    def res(self, v):
        """Replace determined symbols by what they are known to be."""
        while True:
            if isinstance(v, Sym):
                if v.val is not Sym.UNSET:
                    v = v.val
                    continue
                if v.lo is not None and v.lo == v.hi and v.pytype is int:
                    return v.lo
                return v
            if isinstance(v, Lin):
                return self.lin_norm(v)
            if isinstance(v, Tmpl):
                return self.tmpl_norm(v)
            return v

    def tmpl_norm(self, t):
        changed = False
        out = []
        for p in t.parts:
            if isinstance(p, Hole):
                w = self.res(p.val)
                if w is not p.val:
                    changed = True
                    if p.fmt == 's' and isinstance(w, Tmpl):
                        out.extend(w.parts)
                        continue
                    if not isinstance(w, AbsVal):
                        p = repr(w) if p.fmt == 'r' else str(w)
                    else:
                        p = Hole(w, p.fmt)
            out.append(p)
        if not changed:
            return t
        return self.tmpl(out)

    def tmpl(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Tmpl):
                for q in p.parts:
                    if isinstance(q, str) and out and isinstance(out[-1], str):
                        out[-1] += q
                    else:
                        out.append(q)
            elif isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
            else:
                out.append(p)
        if not out:
            return ''
        if len(out) == 1:
            if isinstance(out[0], str):
                return out[0]
            if (out[0].fmt == 's' and isinstance(out[0].val, Sym)
                    and out[0].val.pytype is str):
                return out[0].val
        return Tmpl(tuple(out))

    # linear integers ------------------------------------------------------

    def lin(self, v):
        """View an int-like abstract value as Lin, or None."""
        v = self.res(v)
        if isinstance(v, Lin):
            return v
        if isinstance(v, Sym) and v.pytype is int:
            return Lin({v: 1}, 0)
        if isinstance(v, (int, bool)) and not isinstance(v, AbsVal):
            return Lin({}, int(v))
        return None

    def lin_norm(self, l):
        coefs, const, changed = {}, l.const, False
        for s, c in l.coefs.items():
            w = self.res(s)
            if w is s:
                coefs[s] = coefs.get(s, 0) + c
            else:
                changed = True
                m = self.lin(w)
                if m is None:
                    return l
                const += c * m.const
                for s2, c2 in m.coefs.items():
                    coefs[s2] = coefs.get(s2, 0) + c * c2
        coefs = {s: c for s, c in coefs.items() if c}
        if not coefs:
            return const
        if const == 0 and len(coefs) == 1:
            (s, c), = coefs.items()
            if c == 1:
                return s
        if not changed and len(coefs) == len(l.coefs):
            return l
        return Lin(coefs, const)

    def lin_op(self, a, b, sign):
        coefs = dict(a.coefs)
        for s, c in b.coefs.items():
            coefs[s] = coefs.get(s, 0) + sign * c
        return self.res(Lin({s: c for s, c in coefs.items() if c},
                            a.const + sign * b.const))

    def bounds(self, v):
        l = self.lin(v)
        lo = hi = l.const
        for s, c in l.coefs.items():
            a, b = (s.lo, s.hi) if c > 0 else (s.hi, s.lo)
            lo = None if lo is None or a is None else lo + c * a
            hi = None if hi is None or b is None else hi + c * b
        return lo, hi

    def known_le(self, a, b):
        """Whether a <= b follows from the bounds."""
        d = self.binop('-', b, a)
        lo = self.bounds(d)[0]
        return lo is not None and lo >= 0

    def consistent(self):
        """Whether the relations assumed between several integers are still
        possible."""
        for l, sg in self.run.relations:
            lo, hi = self.bounds(self.lin_norm(l))
            if sg < 0 and lo is not None and lo >= 0 or \
                    sg > 0 and hi is not None and hi <= 0 or \
                    sg == 0 and (lo is not None and lo > 0 or
                                 hi is not None and hi < 0):
                return False
        return True

    def int_cmp(self, op, a, b):
        """Decide a <op> b over linear integers, partitioning if needed."""
        d = self.lin_op(self.lin(a), self.lin(b), -1)
        if op in ('>', '>='):
            # a > b  <=>  b < a
            return self.int_cmp('<' if op == '>' else '<=', b, a)
        if op == '!=':
            return not self.int_cmp('==', a, b)
        if not isinstance(d, AbsVal):
            return {'<': d < 0, '<=': d <= 0, '==': d == 0}[op]
        lo, hi = self.bounds(d)
        if op == '<':
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        elif op == '<=':
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        elif op == '==':
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
        l = self.lin(d)
        if not self.relaxed:
            for s in l.coefs:
                if s.term is not None and not s.term[0].startswith('sk:'):
                    self.imprecise('comparison of %s' % s.name)
        if len(l.coefs) == 1:
            (s, c), = l.coefs.items()
            k = -l.const            # c*s <op> k
            if op == '==':
                if k % c or (k // c) in s.neq:
                    return False
                v = k // c
                if self.choose(2, '%s == %d' % (s.name, v)) == 0:
                    s.val = v
                    return True
                s.neq.add(v)
                self._trim(s)
                return False
            if op == '<':
                k -= 1              # c*s <= k
            if c > 0:
                m = k // c          # s <= m
                if self.choose(2, '%s <= %d' % (s.name, m)) == 0:
                    s.hi = m if s.hi is None else min(m, s.hi)
                    self._trim(s)
                    return True
                s.lo = m + 1 if s.lo is None else max(m + 1, s.lo)
                self._trim(s)
                return False
            m = -(k // -c)          # s >= ceil(k/c)
            if self.choose(2, '%s >= %d' % (s.name, m)) == 0:
                s.lo = m if s.lo is None else max(m, s.lo)
                self._trim(s)
                return True
            s.hi = m - 1 if s.hi is None else min(m - 1, s.hi)
            self._trim(s)
            return False
        # several symbols: remember the sign of the difference
        items = sorted(l.coefs.items(), key=lambda x: x[0].name)
        flip = items[0][1] < 0
        if flip:
            items = [(s, -c) for s, c in items]
        key = (tuple((id(s), c) for s, c in items),
               -l.const if flip else l.const)
        sg = self.run.signs.get(key)
        if sg is None:
            opts = []
            if flip:
                lo, hi = (None if hi is None else -hi,
                          None if lo is None else -lo)
            if lo is None or lo < 0:
                opts.append(-1)
            if (lo is None or lo <= 0) and (hi is None or hi >= 0):
                opts.append(0)
            if hi is None or hi > 0:
                opts.append(1)
            sg = opts[self.choose(len(opts), 'sign of %r' % l)]
            self.run.signs[key] = sg
            self.run.relations.append((Lin(dict(items), -l.const if flip
                                           else l.const), sg))
            if len(self.run.signs) > 1 and not self.relaxed:
                self.imprecise('relation between several unknown integers')
            if sg == 0 and len(items) == 2 and not key[1] and \
                    items[0][1] == 1 and items[1][1] == -1:
                self.unify(items[0][0], items[1][0])
        if flip:
            sg = -sg
        return {'<': sg < 0, '<=': sg <= 0, '==': sg == 0}[op]

    def unify(self, a, b):
        lo = [x for x in (a.lo, b.lo) if x is not None]
        hi = [x for x in (a.hi, b.hi) if x is not None]
        b.lo = max(lo) if lo else None
        b.hi = min(hi) if hi else None
        b.neq |= a.neq
        b.generic = b.generic or a.generic
        if a.lang is not None:
            b.lang = a.lang if b.lang is None or b.lang is a.lang \
                else a.lang & b.lang
        a.val = b
        if b.pytype is int:
            self._trim(b)

    def _trim(self, s):
        while s.lo is not None and s.lo in s.neq:
            s.lo += 1
        while s.hi is not None and s.hi in s.neq:
            s.hi -= 1
        if s.lo is not None and s.hi is not None and s.lo > s.hi:
            raise Infeasible()

    # ---------------------------------------------------------------- truth

    def truth(self, v):
        v = self.res(v)
        if not isinstance(v, AbsVal):
            if isinstance(v, tuple):
                return len(v) > 0
            try:
                return bool(v)
            except Exception:
                self.imprecise('truth of %r' % (v,))
                return self.choose(2, 'truth') == 0
        if isinstance(v, VList):
            return len(v.items) > 0
        if isinstance(v, (VDict, VSet)):
            return len(v.d) > 0
        if isinstance(v, VView):
            return len(v.d.d) > 0
        if isinstance(v, VObj):
            if v.cls is range:
                return self.int_cmp('!=', self.range_len(v), 0)
            f = self.lookup_special(v, '__bool__')
            if f is not None:
                return self.truth(self.call(f, [], {}))
            f = self.lookup_special(v, '__len__')
            if f is not None:
                return self.compare('!=', self.call(f, [], {}), 0)
            return True
        if isinstance(v, Tmpl):
            if any(isinstance(p, str) or p.fmt in 'rd' for p in v.parts):
                return True
            return self.compare('>', self.len_(v), 0)
        if isinstance(v, Lin):
            return self.int_cmp('!=', v, 0)
        if isinstance(v, Sym):
            if v.pytype is bool:
                if v.term is not None and not v.term[0].startswith('sk:'):
                    self.imprecise('branch on %s' % v.name)
                v.val = self.choose(2, v.name) == 0
                return v.val
            if v.pytype is int:
                return self.int_cmp('!=', v, 0)
            if v.pytype is str:
                if v.lang is not None and 'len' not in v.preds:
                    yes = v.lang & rx.NONEMPTY
                    return self.refine(v, yes, v.lang - yes,
                                       '%s is not empty' % v.name)
                return self.compare('!=', self.len_(v), 0)
            if v.pytype is None:
                if 'truth' not in v.preds:
                    self.imprecise('branch on %s' % v.attrs.get('why', v.name))
                    v.preds['truth'] = self.choose(2, v.name) == 0
                return v.preds['truth']
            if v.pytype in (float, complex, bytes):
                if 'truth' not in v.preds:
                    v.preds['truth'] = self.choose(2, 'bool ' + v.name) == 0
                return v.preds['truth']
            return True
        if isinstance(v, VClass):
            return True
        return True

    # ----------------------------------------------------------- type tests

    def type_of(self, v):
        v = self.res(v)
        if not isinstance(v, AbsVal):
            if isinstance(v, types.ModuleType):
                return types.ModuleType
            return type(v)
        if isinstance(v, VObj):
            return v.cls
        if isinstance(v, Sym):
            return v.pytype
        if isinstance(v, Tmpl):
            return str
        if isinstance(v, (Lin, HashTerm)):
            return int
        if isinstance(v, VList):
            return v.pytype
        if isinstance(v, VDict):
            return v.pytype
        if isinstance(v, VSet):
            return frozenset if v.frozen else set
        if isinstance(v, VClass):
            return v.meta
        if isinstance(v, (VFunc, VBuiltin)):
            if isinstance(v, VBuiltin) and v.pytype is not None:
                return type
            return types.FunctionType
        if isinstance(v, VBound):
            return types.MethodType
        if isinstance(v, VModule):
            return types.ModuleType
        if isinstance(v, VIter):
            return v.pytype or types.GeneratorType
        if isinstance(v, VDescr):
            return {'property': property, 'classmethod': classmethod,
                    'staticmethod': staticmethod}.get(v.kind, object)
        if isinstance(v, VPartial):
            import functools
            return functools.partial
        return object

    def issub(self, c, d):
        """Is class c a subclass of d?  Host bool."""
        if c is d:
            return True
        if isinstance(d, VBuiltin) and d.pytype is not None:
            d = d.pytype
        if isinstance(c, VBuiltin) and c.pytype is not None:
            c = c.pytype
        if isinstance(d, VClass):
            if any(d is x for x in mro_of(c)):
                return True
            if self.is_abc(d):
                hook = self.class_lookup(d, '__subclasshook__')
                if hook is not MISSING and hook is not None:
                    r = self.call(self.bind_class_attr(hook, d), [c], {})
                    if r is not NotImplemented:
                        return self.truth(r)
                for x in d.abc_registry:
                    if self.issub(c, x):
                        return True
            return False
        if isinstance(d, type):
            if isinstance(c, VClass):
                if any(d is x for x in c.mro):
                    return True
                hook = {'Hashable': '__hash__', 'Iterable': '__iter__',
                        'Sized': '__len__', 'Callable': '__call__',
                        'Container': '__contains__'}.get(
                            getattr(d, '__name__', ''))
                if hook and type(d).__name__ == 'ABCMeta':
                    return self.class_lookup(c, hook) not in (MISSING, None)
                # e.g. an abstract base class registered for a raw base
                for x in c.mro:
                    if isinstance(x, type) and x is not object:
                        try:
                            if issubclass(x, d):
                                return True
                        except TypeError:
                            pass
                return False
            try:
                return issubclass(c, d)
            except TypeError:
                self.throw(TypeError, 'issubclass() arg 1 must be a class')
        self.throw(TypeError, 'issubclass() arg 2 must be a class')

    def is_abc(self, d):
        m = d.meta
        from abc import ABCMeta
        return any(x is ABCMeta for x in mro_of(m))

    def isinstance_(self, v, cls):
        """Host bool; partitions when v's class is unknown."""
        v = self.res(v)
        cls = self.res(cls)
        if isinstance(cls, tuple):
            return any(self.isinstance_(v, c) for c in cls)
        if isinstance(cls, VList):
            self.throw(TypeError, 'isinstance() arg 2 must be a type')
        if isinstance(cls, types.UnionType):
            return any(self.isinstance_(v, c) for c in cls.__args__)
        if isinstance(cls, VBuiltin) and cls.pytype is not None:
            cls = cls.pytype
        if isinstance(cls, Sym):
            self.imprecise('isinstance of unknown class')
            return self.choose(2, 'isinstance') == 0
        if not isinstance(cls, (VClass, type)):
            self.throw(TypeError, 'isinstance() arg 2 must be a type')
        t = self.type_of(v)
        if t is None:
            k = ('isinstance', id(cls))
            if k not in v.preds:
                self.imprecise('class of %s' % v.attrs.get('why', v.name))
                v.preds[k] = self.choose(2, 'isinstance(%s, %s)' % (
                    v.name, cls_name(cls))) == 0
            return v.preds[k]
        if not isinstance(v, AbsVal) and isinstance(cls, type) and \
                not isinstance(v, tuple):
            try:
                return isinstance(v, cls)
            except TypeError:
                return False
        return self.issub(t, cls)

    # ------------------------------------------------------------ attribute

    def class_lookup(self, cls, name):
        """Find name along the mro; returns the raw class attribute."""
        for c in mro_of(cls):
            if isinstance(c, VClass):
                if name in c.ns:
                    return c.ns[name]
            elif name in c.__dict__:
                if c is object or c is type:
                    m = self.object_attr(c, name)
                    if m is not MISSING:
                        return m
                    continue
                return self.raw_class_attr(c, name)
        return MISSING

    def raw_class_attr(self, c, name):
        m = self.raw_attr_models.get((c, name))
        if m is not None:
            return m
        return c.__dict__[name]

    def object_attr(self, c, name):
        return self.object_models.get((c, name), MISSING)

    def user_lookup(self, cls, name):
        """Like class_lookup but ignores what object and type provide."""
        for c in mro_of(cls):
            if isinstance(c, VClass):
                if name in c.ns:
                    return c.ns[name]
            elif c is object or c is type:
                continue
            elif name in c.__dict__:
                return self.raw_class_attr(c, name)
        return MISSING

    def lookup_special(self, obj, name):
        """Bound special method of an object's class, or None."""
        cls = self.type_of(obj)
        if cls is None:
            return None
        f = self.user_lookup(cls, name)
        if f is MISSING:
            return None
        if f is None:
            return None
        return self.bind(f, obj, cls)

    def bind(self, f, obj, cls):
        if isinstance(f, (VFunc, VBuiltin)):
            return VBound(f, obj)
        if isinstance(f, VDescr):
            if f.kind == 'property':
                if f.fget is None:
                    self.throw(AttributeError, 'unreadable attribute')
                return self.call(f.fget, [obj], {})
            if f.kind == 'classmethod':
                return VBound(f.fget, cls)
            if f.kind == 'staticmethod':
                return f.fget
            if f.kind == 'cached_property':
                return self.call(f.fget, [obj], {})
            if f.kind == 'itemgetter':
                return self.getitem(obj, f.fget)
        if isinstance(f, VPartial) or f is None:
            return f
        if isinstance(f, VObj):
            g = self.user_lookup(f.cls, '__get__')
            if g is not MISSING:
                return self.call(VBound(g, f), [obj, cls], {})
            return f
        if isinstance(f, VDispatcher):
            return VBound(f, obj)
        if isinstance(f, (types.FunctionType, types.MethodDescriptorType,
                          types.WrapperDescriptorType)):
            return VBound(f, obj)
        if isinstance(f, classmethod):
            return VBound(f.__func__, cls)
        if isinstance(f, staticmethod):
            return f.__func__
        if isinstance(f, property):
            return self.top('library property')
        return f

    def bind_class_attr(self, f, cls):
        """Attribute found on the class itself, accessed through the class."""
        if isinstance(f, VDescr):
            if f.kind == 'classmethod':
                return VBound(f.fget, cls)
            if f.kind == 'staticmethod':
                return f.fget
            return f
        if isinstance(f, classmethod):
            return VBound(f.__func__, cls)
        if isinstance(f, staticmethod):
            return f.__func__
        return f

    def getattr_(self, o, name, default=MISSING):
        try:
            return self.getattr0(o, name)
        except Raised as e:
            if default is not MISSING and self.exc_matches(
                    e.exc, AttributeError):
                return default
            raise

    def getattr0(self, o, name):
        o = self.res(o)
        if isinstance(o, VObj):
            if o.cls is slice and name == 'indices':
                xs = [o.attrs[n] for n in ('start', 'stop', 'step')]
                return VBuiltin(name, lambda i, a, k: i.slice_indices(
                    xs, i.res(a[0])))
            return self.obj_getattr(o, name)
        if isinstance(o, slice) and name == 'indices':
            xs = [o.start, o.stop, o.step]
            return VBuiltin(name, lambda i, a, k: i.slice_indices(
                xs, i.res(a[0])))
        if isinstance(o, VModule):
            if name in o.ns:
                return o.ns[name]
            if name == '__dict__':
                return self.module_dict(o)
            if name == '__name__':
                return o.name
            full = o.name + '.' + name
            if full in self.modules:
                return self.modules[full]
            self.throw(AttributeError, 'module %s has no attribute %s' %
                       (o.name, name))
        if isinstance(o, VClass):
            return self.cls_getattr(o, name)
        if isinstance(o, VSuper):
            return self.super_getattr(o, name)
        if isinstance(o, VBound):
            if name == '__self__':
                return o.self_
            if name == '__func__':
                return o.func
            return self.getattr0(o.func, name)
        if isinstance(o, VFunc):
            if name in o.attrs:
                return o.attrs[name]
            if name in ('__name__', 'func_name'):
                return o.name
            if name == '__qualname__':
                return o.qualname
            if name == '__doc__':
                b = getattr(o.node, 'body', None)
                return ast.get_docstring(o.node, clean=False) if isinstance(
                    o.node, ast.FunctionDef) else None
            if name == '__module__':
                return o.module.name
            if name == '__dict__':
                return self.dict(o.attrs.items())
            if name == '__defaults__':
                return tuple(o.defaults) or None
            if name == '__get__':
                return VBuiltin('__get__', lambda i, a, k: VBound(o, a[0]))
            if name == '__call__':
                return o
            self.throw(AttributeError, "'function' object has no attribute %r"
                       % name)
        return self.library_getattr(o, name)

    def obj_getattr(self, o, name):
        cls = o.cls
        if isinstance(cls, VClass) or True:
            g = self.user_lookup(cls, '__getattribute__') \
                if isinstance(cls, VClass) else MISSING
            if g is not MISSING and isinstance(g, VFunc):
                return self.call(g, [o, name], {})
        f = self.class_lookup(cls, name)
        if isinstance(f, VDescr) and f.kind == 'property':
            try:
                return self.bind(f, o, cls)
            except Raised as e:
                ga = self.user_lookup(cls, '__getattr__')
                if ga is not MISSING and self.exc_matches(e.exc,
                                                          AttributeError):
                    return self.call(ga, [o, name], {})
                raise
        if isinstance(f, VObj) and self.user_lookup(f.cls, '__set__') \
                is not MISSING:
            return self.bind(f, o, cls)
        if name in o.attrs:
            return o.attrs[name]
        if name == '__class__':
            return cls
        if name == '__dict__':
            return self.obj_dict(o)
        if f is not MISSING:
            r = self.bind(f, o, cls)
            if isinstance(f, VDescr) and f.kind == 'cached_property':
                self.setattr_raw(o, name, r)
            return r
        if o.payload is not None:
            return self.library_getattr(o.payload, name)
        ga = self.user_lookup(cls, '__getattr__')
        if ga is not MISSING:
            return self.call(ga, [o, name], {})
        if name == '__doc__':
            return None
        if name == '__module__':
            return self.cls_getattr(cls, '__module__')
        if isinstance(cls, type) and cls is not object:
            # instance of a library class (an exception)
            if name in ('args',):
                return o.attrs.get('args', ())
            if name in ('msg', 'message') and issubclass(cls, BaseException):
                return o.attrs.get('args', ('',))[0]
        self.throw(AttributeError, "'%s' object has no attribute '%s'" %
                   (cls_name(cls), name))

    def obj_dict(self, o):
        d = self.dict(o.attrs.items())
        d.tag = ('objdict', o)
        return d

    def module_dict(self, m):
        d = VDict(m.birth)
        for k, v in m.ns.items():
            d.d[k] = (k, v)
        d.tag = ('moddict', m)
        return d

    def cls_getattr(self, c, name):
        if name == '__mro__':
            return tuple(c.mro)
        if name == '__name__':
            return c.name
        if name == '__qualname__':
            return c.qualname
        if name == '__bases__':
            return tuple(c.bases) or (object,)
        if name == '__class__':
            return c.meta
        if name == '__module__' and '__module__' not in c.ns:
            return c.module.name if c.module else 'builtins'
        if name == '__dict__':
            d = self.dict(c.ns.items())
            d.tag = ('clsdict', c)
            return d
        if name == '__doc__' and name not in c.ns:
            return None
        mf = self.class_lookup(c.meta, name)
        if isinstance(mf, VDescr) and mf.kind == 'property':
            return self.bind(mf, c, c.meta)
        f = self.class_lookup(c, name)
        if f is not MISSING and not (mf is not MISSING and
                                     self.from_object(c, name)):
            return self.bind_class_attr(f, c)
        if mf is not MISSING:
            return self.bind(mf, c, c.meta)
        if f is not MISSING:
            return self.bind_class_attr(f, c)
        if name == '__subclasses__':
            return VBuiltin('__subclasses__',
                            lambda i, a, k: i.list(c.subs))
        self.throw(AttributeError, "type object '%s' has no attribute '%s'" %
                   (c.name, name))

    def from_object(self, c, name):
        for x in mro_of(c):
            if isinstance(x, VClass):
                if name in x.ns:
                    return False
            elif x is object:
                return True
            elif name in x.__dict__:
                return False
        return False

    def super_getattr(self, s, name):
        obj = s.obj
        is_cls = isinstance(obj, VClass) and any(s.cls is x for x in obj.mro)
        start = obj if is_cls else self.type_of(obj)
        m = mro_of(start)
        i = [k for k, x in enumerate(m) if x is s.cls][0]
        for c in m[i + 1:]:
            if isinstance(c, VClass):
                if name in c.ns:
                    f = c.ns[name]
                else:
                    continue
            else:
                if name not in c.__dict__:
                    continue
                f = self.object_attr(c, name)
                if f is MISSING:
                    f = self.raw_class_attr(c, name)
            if isinstance(f, VDescr) and f.kind == 'classmethod':
                return VBound(f.fget, start)
            if name == '__new__':
                return f.fget if isinstance(f, VDescr) else f
            if is_cls and name in ('__init_subclass__',):
                return VBound(f, obj)
            if is_cls:
                return self.bind_class_attr(f, obj)
            return self.bind(f, obj, start)
        if name == '__init_subclass__':
            return VBuiltin(name, lambda i, a, k: None)
        self.throw(AttributeError, "'super' object has no attribute '%s'" %
                   name)

    def setattr_raw(self, o, name, val):
        had, old = name in o.attrs, o.attrs.get(name)

        def undo():
            if had:
                o.attrs[name] = old
            else:
                o.attrs.pop(name, None)
        self.mark(o, undo, 'attribute ' + name)
        o.attrs[name] = val

    def setattr_(self, o, name, val):
        o = self.res(o)
        if isinstance(o, VObj):
            if isinstance(o.cls, VClass):
                sa = self.user_lookup(o.cls, '__setattr__')
                if sa is not MISSING and isinstance(sa, VFunc):
                    return self.call(sa, [o, name, val], {})
            return self.object_setattr(o, name, val)
        if isinstance(o, VClass):
            had, old = name in o.ns, o.ns.get(name)

            def undo():
                if had:
                    o.ns[name] = old
                else:
                    o.ns.pop(name, None)
            self.mark(o, undo, 'class attribute ' + name)
            o.ns[name] = val
            return
        if isinstance(o, VModule):
            self.module_set(o, name, val)
            return
        if isinstance(o, VFunc):
            had, old = name in o.attrs, o.attrs.get(name)

            def undo():
                if had:
                    o.attrs[name] = old
                else:
                    o.attrs.pop(name, None)
            self.mark(o, undo, 'function attribute ' + name)
            o.attrs[name] = val
            return
        if isinstance(o, VPartial):
            o.attrs[name] = val
            return
        if isinstance(o, Sym) and o.pytype is None:
            self.imprecise('attribute of unknown object set')
            return
        self.throw(AttributeError, 'cannot set attribute %s' % name)

    def object_setattr(self, o, name, val):
        f = self.user_lookup(o.cls, name) if isinstance(o.cls, VClass) \
            else MISSING
        if isinstance(f, VDescr) and f.kind == 'property':
            if f.fset is None:
                self.throw(AttributeError, 'property %s has no setter' % name)
            self.call(f.fset, [o, val], {})
            return
        if isinstance(f, VObj):
            st = self.user_lookup(f.cls, '__set__')
            if st is not MISSING:
                self.call(VBound(st, f), [o, val], {})
                return
        if name == '__class__':
            o.cls = val
            return
        if not self.slot_allowed(o.cls, name):
            self.throw(AttributeError, "'%s' object has no attribute '%s'" %
                       (cls_name(o.cls), name))
        self.setattr_raw(o, name, val)

    def slot_allowed(self, cls, name):
        """False if every class of the mro restricts instances to slots."""
        if not isinstance(cls, VClass):
            return True
        for c in cls.mro:
            if c is object:
                continue
            if not isinstance(c, VClass):
                return True
            sl = c.ns.get('__slots__', MISSING)
            if sl is MISSING:
                return True
            names = [sl] if isinstance(sl, str) else (
                sl.items if isinstance(sl, VList) else sl)
            if not isinstance(names, (list, tuple)):
                return True
            if name in names or '__dict__' in names:
                return True
        return False

    def delattr_(self, o, name):
        o = self.res(o)
        if isinstance(o, VObj):
            if name not in o.attrs:
                self.throw(AttributeError, name)
            old = o.attrs[name]
            self.mark(o, lambda: o.attrs.__setitem__(name, old),
                      'attribute ' + name)
            del o.attrs[name]
        elif isinstance(o, VClass):
            if name not in o.ns:
                self.throw(AttributeError, name)
            old = o.ns[name]
            self.mark(o, lambda: o.ns.__setitem__(name, old),
                      'class attribute ' + name)
            del o.ns[name]
        else:
            self.imprecise('del of attribute')

    def module_set(self, m, name, val):
        had, old = name in m.ns, m.ns.get(name)

        def undo():
            if had:
                m.ns[name] = old
            else:
                m.ns.pop(name, None)
        self.mark(m, undo, 'global ' + name)
        m.ns[name] = val

    # ---------------------------------------------------------------- calls

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        f = self.res(f)
        if isinstance(f, VBound):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, VFunc):
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, VClass):
            return self.call_class(f, list(args), kwargs)
        if isinstance(f, VBuiltin):
            self.step()
            return f.fn(self, list(args), kwargs)
        if isinstance(f, VPartial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw)
        if isinstance(f, VObj):
            c = self.lookup_special(f, '__call__')
            if c is None:
                self.throw(TypeError, "'%s' object is not callable" %
                           cls_name(f.cls))
            return self.call(c, args, kwargs)
        if isinstance(f, VDispatcher):
            return self.call_dispatcher(f, list(args), kwargs)
        if isinstance(f, VDescr) and f.kind in ('staticmethod',
                                                'classmethod'):
            return self.call(f.fget, args, kwargs)
        if isinstance(f, Sym):
            if f.pytype is None:
                return self.top('call of unknown function')
            self.throw(TypeError, 'not callable')
        return self.call_library(f, list(args), kwargs)

    def call_class(self, c, args, kwargs):
        # metaclass __call__
        mc = self.user_lookup(c.meta, '__call__') \
            if isinstance(c.meta, VClass) else MISSING
        if mc is not MISSING:
            return self.call(VBound(mc, c), args, kwargs)
        return self.type_call(c, args, kwargs)

    def type_call(self, c, args, kwargs):
        # creating a class by calling a metaclass
        if any(x is type for x in c.mro):
            new = self.user_lookup(c, '__new__')
            if new is not MISSING:
                if isinstance(new, VDescr):
                    new = new.fget
                r = self.call(new, [c] + args, kwargs)
            else:
                r = self.type_new(c, args, kwargs)
            init = self.user_lookup(c, '__init__')
            if init is not MISSING and isinstance(r, VClass):
                self.call(VBound(init, r), args, kwargs)
            return r
        new = self.user_lookup(c, '__new__')
        if new is not MISSING:
            if isinstance(new, VDescr):
                new = new.fget
            if isinstance(new, (VFunc, VBuiltin)):
                o = self.call(new, [c] + args, kwargs)
            else:
                o = self.new_object(c, args, kwargs)
        else:
            o = self.new_object(c, args, kwargs)
        if isinstance(o, VObj) and self.issub(o.cls, c):
            init = self.user_lookup(o.cls, '__init__')
            if init is not MISSING and isinstance(init, (VFunc, VBuiltin,
                                                         VPartial)):
                r = self.call(VBound(init, o), args, kwargs)
                if r is not None and self.res(r) is not None:
                    self.throw(TypeError, '__init__() should return None')
            elif init is MISSING and (args or kwargs) and new is MISSING \
                    and o.payload is None:
                self.throw(TypeError, '%s() takes no arguments' % c.name)
        return o

    def new_object(self, c, args=(), kwargs=None):
        o = VObj(c, self.run.rid)
        for b in c.mro:
            if isinstance(b, type) and b is not object:
                if issubclass(b, BaseException):
                    o.attrs['args'] = tuple(args)
                elif b in self.payload_types:
                    # container subclass: share the model of its base
                    init = self.user_lookup(c, '__init__')
                    a = args if not isinstance(init, VFunc) else []
                    if b in (tuple, str, int, float, frozenset):
                        a = args
                    o.payload = self.call(b, list(a), {})
                break
        return o

    def call_func(self, f, args, kwargs):
        ov = self.overrides.get((f.module.name, f.qualname))
        if ov is not None:
            r = ov(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        r = self.run
        self.step()
        if r.depth > self.max_depth:
            # deep recursion: in Python this would be a RecursionError
            raise Budget('recursion depth in %s' % f.qualname)
        env = Env(f.env, f.module, f.info.local, f)
        env.globals_ = f.info.globals_
        env.nonlocals = f.info.nonlocals
        self.bind_args(f, args, kwargs, env.vars)
        r.funcs.setdefault((f.module.name, f.qualname), f)
        if f.info.isgen:
            return VIter(self.gen_body(f, env))
        old = getattr(self, '_curfunc', None)
        oldcur = self.cur
        self._curfunc = f
        r.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            self.block(f.node.body, env)
            return None
        except _Return as e:
            return e.val
        finally:
            r.depth -= 1
            self._curfunc = old
            self.cur = oldcur

    def bind_args(self, f, args, kwargs, vars):
        a = f.node.args
        pos = a.posonlyargs + a.args
        kwargs = dict(kwargs)
        n = len(pos)
        name = f.name
        for p, v in zip(pos, args):
            vars[p.arg] = v
        if len(args) > n:
            if a.vararg:
                vars[a.vararg.arg] = tuple(args[n:])
            else:
                self.throw(TypeError, '%s() takes %d positional arguments but '
                           '%d were given' % (name, n, len(args)))
        elif a.vararg:
            vars[a.vararg.arg] = ()
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg in vars and i < len(args):
                if p.arg in kwargs and p not in a.posonlyargs:
                    self.throw(TypeError, '%s() got multiple values for '
                               'argument %r' % (name, p.arg))
                continue
            if p.arg in kwargs and p not in a.posonlyargs:
                vars[p.arg] = kwargs.pop(p.arg)
            elif i >= n - nd:
                vars[p.arg] = f.defaults[i - (n - nd)]
            else:
                self.throw(TypeError, '%s() missing required positional '
                           'argument: %r' % (name, p.arg))
        for p, d in zip(a.kwonlyargs, f.kwdefaults):
            if p.arg in kwargs:
                vars[p.arg] = kwargs.pop(p.arg)
            elif d is not MISSING:
                vars[p.arg] = d
            else:
                self.throw(TypeError, '%s() missing required keyword-only '
                           'argument: %r' % (name, p.arg))
        if a.kwarg:
            vars[a.kwarg.arg] = self.dict(kwargs.items())
        elif kwargs:
            self.throw(TypeError, '%s() got an unexpected keyword argument %r'
                       % (name, sorted(map(str, kwargs))[0]))

    def gen_body(self, f, env):
        old = getattr(self, '_curfunc', None)
        self._curfunc = f
        try:
            for v in self.gblock(f.node.body, env):
                self._curfunc = old
                yield v
                self._curfunc = f
        except _Return:
            pass
        finally:
            self._curfunc = old

    # ------------------------------------------------------------ iteration

    def iterate(self, v):
        """Host generator over the elements."""
        v = self.res(v)
        if isinstance(v, VObj) and v.cls is range:
            v = self.known_range(v)
        if isinstance(v, VList):
            i = 0
            while i < len(v.items):
                yield v.items[i]
                i += 1
            return
        if isinstance(v, tuple):
            if hasattr(v, '_fields') or True:
                for x in v:
                    yield self.to_abs(x) if type(v) is not tuple else x
            return
        if isinstance(v, VIter):
            while True:
                x = self.iter_next(v)
                if x is MISSING:
                    return
                yield x
        if isinstance(v, VSet):
            for x in self.set_order(v):
                yield x
            return
        if isinstance(v, VDict):
            for k, _ in list(v.d.values()):
                yield k
            return
        if isinstance(v, VView):
            for k, x in list(v.d.d.values()):
                yield {'keys': k, 'values': x, 'items': (k, x)}[v.kind]
            return
        if isinstance(v, VObj):
            f = self.lookup_special(v, '__iter__')
            if f is not None:
                it = self.call(f, [], {})
                it = self.res(it)
                if isinstance(it, VObj) and self.lookup_special(
                        it, '__next__') is not None:
                    nx = self.lookup_special(it, '__next__')
                    while True:
                        try:
                            x = self.call(nx, [], {})
                        except Raised as e:
                            if self.exc_matches(e.exc, StopIteration):
                                return
                            raise
                        yield x
                for x in self.iterate(it):
                    yield x
                return
            if v.payload is not None:
                for x in self.iterate(v.payload):
                    yield x
                return
            f = self.lookup_special(v, '__getitem__')
            if f is not None:
                i = 0
                while True:
                    try:
                        x = self.call(f, [i], {})
                    except Raised as e:
                        if self.exc_matches(e.exc, IndexError):
                            return
                        raise
                    yield x
                    i += 1
                    if i > 200:
                        raise Budget('unbounded __getitem__ iteration')
            nx = self.lookup_special(v, '__next__')
            if nx is not None:
                while True:
                    try:
                        x = self.call(nx, [], {})
                    except Raised as e:
                        if self.exc_matches(e.exc, StopIteration):
                            return
                        raise
                    yield x
            self.throw(TypeError, "'%s' object is not iterable" %
                       cls_name(v.cls))
        if isinstance(v, VClass):
            f = self.lookup_special(v, '__iter__')
            if f is not None:
                for x in self.iterate(self.call(f, [], {})):
                    yield x
                return
            self.throw(TypeError, 'type object is not iterable')
        if isinstance(v, Sym) and v.pytype is str:
            self.imprecise('iteration over unknown text')
            c = self.choose(3, 'len of text')
            for i in range(c):
                yield self.term('char', [v, i], str)
            return
        if isinstance(v, Sym) and v.pytype is None:
            self.imprecise('iteration over %s' % v.attrs.get('why', v.name))
            n = self.choose(3, 'iteration count')
            for i in range(n):
                yield self.top('element of unknown')
            return
        if isinstance(v, Tmpl):
            self.imprecise('iteration over template')
            yield self.top('char')
            return
        if isinstance(v, AbsVal):
            self.throw(TypeError, 'object is not iterable')
        if isinstance(v, (str, bytes, range)):
            for x in v:
                yield x
            return
        if isinstance(v, (int, float, type(None), complex)):
            self.throw(TypeError, "'%s' object is not iterable" %
                       type(v).__name__)
        try:
            it = iter(v)
        except TypeError:
            self.throw(TypeError, 'object is not iterable')
        n = 0
        for x in it:
            n += 1
            if n > 5000:
                raise Budget('long library iteration')
            yield self.to_abs(x)

    def iter_next(self, it):
        if it.buf:
            return it.buf.pop(0)
        if it.done:
            return MISSING
        try:
            return next(it.gen)
        except StopIteration:
            it.done = True
            return MISSING
        except Raised:
            it.done = True
            raise

    def set_order(self, s):
        xs = list(s.d.values())
        if len(xs) > 1:
            self.run.unordered += 1
        if self.order == 'rev':
            xs.reverse()
        elif self.order == 'rot' and len(xs) > 1:
            xs = xs[len(xs) // 2:] + xs[:len(xs) // 2]
        return xs

    def known_range(self, r):
        """Bounded partition of a range of unknown length."""
        start, stop, step = [self.res(r.attrs[k])
                             for k in ('start', 'stop', 'step')]
        if isinstance(start, AbsVal) or step != 1:
            return self.top('range')
        n = 0
        while n < 6:
            if self.int_cmp('<=', stop, start + n):
                return range(start, start + n)
            n += 1
        raise Budget('range of unknown length')

    def as_list(self, v):
        v = self.res(v)
        if type(v) is tuple:
            return list(v)
        out = []
        for x in self.iterate(v):
            out.append(x)
            if len(out) > 3000:
                raise Budget('long iteration')
        return out

    # ------------------------------------------------------------- mappings

    def native_key(self, k):
        """Key usable in a host dict with Python's own equality, or None."""
        k = self.res(k)
        if isinstance(k, VClass):
            return k
        if isinstance(k, (VFunc, VBuiltin, VModule, VDispatcher)):
            return k
        if isinstance(k, VObj):
            return None
        if isinstance(k, AbsVal):
            return None
        if isinstance(k, tuple):
            ks = tuple(self.native_key(x) for x in k)
            if any(x is None and self.res(y) is not None
                   for x, y in zip(ks, k)):
                return None
            return ks
        if isinstance(k, float) and k != k:
            return None
        try:
            hash(k)
        except TypeError:
            self.throw(TypeError, 'unhashable type')
        return k

    def unhashable(self, k):
        k = self.res(k)
        if isinstance(k, (VList, VDict)) or (isinstance(k, VSet) and
                                             not k.frozen):
            self.throw(TypeError, "unhashable type: '%s'" %
                       self.type_of(k).__name__)

    def find_key(self, d, k):
        """The host key of the entry equal to k, or MISSING."""
        k = self.res(k)
        self.unhashable(k)
        if k is None:
            return None if None in d else MISSING
        nk = self.native_key(k)
        isconst = nk is not None
        if isconst:
            if nk in d:
                return nk
            # entries that are symbolic may still be equal
            if not any(type(h) is OddKey for h in d):
                return MISSING
        for h in list(d):
            if isinstance(h, OddKey):
                ek = h.obj
            else:
                ek = h
                if isconst:
                    continue        # already compared natively
            if self.key_equal(k, ek):
                return h
        return MISSING

    def key_equal(self, a, b):
        """Equality as a hash table sees it: same hash, then equal."""
        a, b = self.res(a), self.res(b)
        if a is b:
            return True
        if not isinstance(a, VObj) and not isinstance(b, VObj) and \
                not isinstance(a, tuple) and not isinstance(b, tuple):
            if isinstance(a, VClass) or isinstance(b, VClass):
                return False
            return self.compare('==', a, b)
        ha, hb = self.hash_(a), self.hash_(b)
        if not self.hash_equal(ha, hb):
            return False
        return self.compare('==', a, b)

    def hash_equal(self, a, b):
        """Are two abstract hashes the same term?  Partitions on symbols."""
        a, b = self.res(a), self.res(b)
        if isinstance(a, HashTerm) or isinstance(b, HashTerm):
            if not (isinstance(a, HashTerm) and isinstance(b, HashTerm)):
                return False
            if a.op != b.op or len(a.args) != len(b.args):
                return False
            if a.op == 'fset':
                rest = list(b.args)
                for x in a.args:
                    for y in rest:
                        if self.hash_equal(x, y):
                            rest.remove(y)
                            break
                    else:
                        return False
                return True
            if a.op == 'xor':
                x, y = a.args
                u, v = b.args
                if self.hash_equal(x, u) and self.hash_equal(y, v):
                    return True
                return False
            return all(self.hash_equal(x, y)
                       for x, y in zip(a.args, b.args))
        if isinstance(a, (VClass, VFunc, VBuiltin, VObj)) or \
                isinstance(b, (VClass, VFunc, VBuiltin, VObj)):
            return a is b
        if isinstance(a, tuple) or isinstance(b, tuple):
            return a == b
        return self.compare('==', a, b)

    def hash_(self, v):
        v = self.res(v)
        if isinstance(v, (VList, VDict)) or (isinstance(v, VSet) and
                                             not v.frozen):
            self.throw(TypeError, "unhashable type: '%s'" %
                       self.type_of(v).__name__)
        if isinstance(v, tuple):
            return HashTerm('tuple', tuple(self.hash_(x) for x in v))
        if isinstance(v, VSet):
            return HashTerm('fset', tuple(self.hash_(x)
                                          for x in v.d.values()))
        if isinstance(v, HashTerm):
            return v
        if isinstance(v, (Sym,)) and v.pytype is int:
            return v
        if isinstance(v, Lin):
            return v
        if isinstance(v, (Sym, Tmpl)):
            return HashTerm('of', (v,))
        if isinstance(v, VObj):
            if v.payload is not None and self.user_lookup(
                    v.cls, '__hash__') is MISSING:
                return self.hash_(v.payload)
            f = self.user_lookup(v.cls, '__hash__')
            if f is None:
                self.throw(TypeError, "unhashable type: '%s'" %
                           cls_name(v.cls))
            if f is MISSING or not isinstance(f, (VFunc, VBuiltin, VPartial)):
                return HashTerm('id', (v,))
            return self.res(self.call(VBound(f, v), [], {}))
        if isinstance(v, AbsVal):
            if isinstance(v, VClass):
                f = self.user_lookup(v.meta, '__hash__')
                if isinstance(f, VFunc):
                    return self.call(VBound(f, v), [], {})
            return HashTerm('id', (v,))
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        try:
            hash(v)
        except TypeError:
            self.throw(TypeError, 'unhashable type')
        return HashTerm('of', (v,))

    def dict_get(self, d, k):
        h = self.find_key(d.d, k)
        if h is MISSING:
            return MISSING
        return d.d[h][1]

    def dict_set(self, d, k, v):
        if isinstance(d.tag, tuple) and d.tag[0] == 'moddict':
            self.module_set(d.tag[1], k, v)
        elif isinstance(d.tag, tuple) and d.tag[0] == 'objdict':
            self.setattr_raw(d.tag[1], k, v)
        h = self.find_key(d.d, k)
        if h is MISSING:
            h = self.native_key(k)
            if h is None and self.res(k) is not None:
                h = OddKey(k)
            self.mark(d, lambda: d.d.pop(h, None), 'entry %s' % self.show(k))
            d.d[h] = (self.res(k), v)
        else:
            old = d.d[h]
            self.mark(d, lambda: d.d.__setitem__(h, old),
                      'entry %s' % self.show(k))
            d.d[h] = (old[0], v)

    def dict_del(self, d, k):
        h = self.find_key(d.d, k)
        if h is MISSING:
            self.throw(KeyError, k)
        saved = list(d.d.items())

        def undo():
            d.d.clear()
            d.d.update(saved)
        self.mark(d, undo, 'entry %s' % self.show(k))
        return d.d.pop(h)[1]

    def set_add(self, s, x):
        h = self.find_key(s.d, x)
        if h is not MISSING:
            return
        h = self.native_key(x)
        if h is None and self.res(x) is not None:
            h = OddKey(x)
        self.mark(s, lambda: s.d.pop(h, None), 'element')
        s.d[h] = self.res(x)

    def set_has(self, s, x):
        return self.find_key(s.d, x) is not MISSING

    def set_del(self, s, x):
        h = self.find_key(s.d, x)
        if h is MISSING:
            return False
        saved = list(s.d.items())

        def undo():
            s.d.clear()
            s.d.update(saved)
        self.mark(s, undo, 'element')
        del s.d[h]
        return True

    # ----------------------------------------------------------- statements

    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        r = self.run
        r.steps += 1
        if r.steps > self.max_steps:
            raise Budget('steps')
        self.cur = s
        f = self.stmt_dispatch.get(type(s))
        if f is None:
            raise Budget('unsupported statement %s' % type(s).__name__)
        return f(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Global(self, s, env):
        pass

    def s_Nonlocal(self, s, env):
        pass

    def s_Return(self, s, env):
        raise _Return(None if s.value is None else self.ev(s.value, env))

    def s_Break(self, s, env):
        raise _Break()

    def s_Continue(self, s, env):
        raise _Continue()

    def s_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_While(self, s, env):
        n = 0
        while True:
            self.cur = s
            if not self.truth(self.ev(s.test, env)):
                break
            n += 1
            if n > 2000:
                raise Budget('while loop')
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.block(s.orelse, env)

    def s_For(self, s, env):
        n = 0
        for x in self.iterate(self.ev(s.iter, env)):
            n += 1
            if n > 3000:
                raise Budget('for loop')
            self.assign(s.target, x, env)
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.block(s.orelse, env)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            load = lambda: self.name_load(t.id, env)
            store = lambda v: self.name_store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            load = lambda: self.getattr_(o, t.attr)
            store = lambda v: self.setattr_(o, t.attr, v)
        else:
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            load = lambda: self.getitem(o, k)
            store = lambda v: self.setitem(o, k, v)
        a = load()
        b = self.ev(s.value, env)
        store(self.inplace(OPS[type(s.op)], a, b))

    def inplace(self, op, a, b):
        a = self.res(a)
        if isinstance(a, VList) and op == '+':
            self.list_extend(a, self.as_list(b))
            return a
        if isinstance(a, VSet) and not a.frozen and op in '|&-^':
            r = self.binop(op, a, b)
            saved = dict(a.d)

            def undo():
                a.d.clear()
                a.d.update(saved)
            self.mark(a, undo, 'elements')
            a.d = dict(r.d)
            return a
        if isinstance(a, VDict) and op == '|':
            for k, v in self.pairs(b):
                self.dict_set(a, k, v)
            return a
        if isinstance(a, VObj):
            f = self.lookup_special(a, '__i' + DUNDER[op][2:])
            if f is not None:
                r = self.call(f, [b], {})
                if r is not NotImplemented:
                    return r
        return self.binop(op, a, b)

    def list_extend(self, l, xs):
        n = len(l.items)
        self.mark(l, lambda: l.items.__delitem__(slice(n, None)), 'items')
        l.items.extend(xs)

    def list_replace(self, l, xs):
        old = list(l.items)
        self.mark(l, lambda: l.items.__setitem__(slice(None), old), 'items')
        l.items[:] = xs

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                e = self.owner(t.id, env)
                if e is None:
                    if t.id in env.module.ns:
                        old = env.module.ns[t.id]
                        m = env.module
                        self.mark(m, lambda: m.ns.__setitem__(t.id, old),
                                  'global ' + t.id)
                        del m.ns[t.id]
                    else:
                        self.throw(NameError, t.id)
                else:
                    if t.id not in e.vars:
                        self.throw(UnboundLocalError, t.id)
                    del e.vars[t.id]
            elif isinstance(t, ast.Attribute):
                self.delattr_(self.ev(t.value, env), t.attr)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env), self.ev(t.slice, env))
            elif isinstance(t, (ast.Tuple, ast.List)):
                self.s_Delete(ast.Delete(targets=t.elts), env)

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            args = [] if s.msg is None else [self.ev(s.msg, env)]
            self.cur = s
            self.throw(AssertionError, *args)

    def s_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(self, '_handling', None)
            if cur is None:
                self.throw(RuntimeError, 'No active exception to reraise')
            raise Raised(cur)
        e = self.ev(s.exc, env)
        if s.cause is not None:
            self.ev(s.cause, env)
        self.cur = s
        e = self.res(e)
        if isinstance(e, (VClass, type)):
            e = self.call(e, [], {})
        if isinstance(e, Sym):
            self.imprecise('raise of unknown')
            e = self.make_exc(Exception, ())
        if not (isinstance(e, VObj) and self.issub(e.cls, BaseException)):
            self.throw(TypeError, 'exceptions must derive from BaseException')
        r = Raised(e)
        r.where = self.where()
        raise r

    def exc_matches(self, exc, cls):
        cls = self.res(cls)
        if isinstance(cls, tuple):
            return any(self.exc_matches(exc, c) for c in cls)
        return self.issub(exc.cls, cls)

    def s_Try(self, s, env):
        try:
            self.try_inner(s, env)
        finally:
            if s.finalbody:
                et = sys.exc_info()[0]
                if et is None or issubclass(et, (Raised, _Return, _Break,
                                                 _Continue)):
                    self.block(s.finalbody, env)

    def try_inner(self, s, env):
        try:
            self.block(s.body, env)
        except Raised as r:
            depth = None
            for h in s.handlers:
                if h.type is None or self.exc_matches(
                        r.exc, self.ev(h.type, env)):
                    old = getattr(self, '_handling', None)
                    self._handling = r.exc
                    if h.name:
                        self.name_store(h.name, r.exc, env)
                    try:
                        self.block(h.body, env)
                    finally:
                        self._handling = old
                        if h.name:
                            e = self.owner(h.name, env)
                            if e is not None:
                                e.vars.pop(h.name, None)
                    return
            raise
        else:
            self.block(s.orelse, env)

    def s_With(self, s, env):
        self.with_items(s.items, s.body, env)

    def with_items(self, items, body, env):
        if not items:
            return self.block(body, env)
        it = items[0]
        cm = self.ev(it.context_expr, env)
        enter = self.getattr_(cm, '__enter__')
        exit_ = self.getattr_(cm, '__exit__')
        v = self.call(enter, [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            self.with_items(items[1:], body, env)
        except Raised as r:
            if self.truth(self.call(exit_, [r.exc.cls, r.exc, None], {})):
                return
            raise
        except (_Return, _Break, _Continue):
            self.call(exit_, [None, None, None], {})
            raise
        else:
            self.call(exit_, [None, None, None], {})

    def s_FunctionDef(self, s, env):
        f = self.make_func(s, env)
        for d in reversed(s.decorator_list):
            dec = self.ev(d, env)
            f = self.call(dec, [f], {})
        self.name_store(s.name, f, env)

    def make_func(self, node, env):
        f = VFunc()
        f.birth = self.run.rid
        f.tag = None
        f.node = node
        e = env
        f.defcls = None
        if isinstance(env, ClassEnv):
            f.defcls = env
        f.env = env
        f.module = env.module
        f.name = getattr(node, 'name', '<lambda>')
        prefix = ''
        if isinstance(env, ClassEnv):
            prefix = env.vars.get('__qualname__', '') + '.'
        elif env.func is not None:
            prefix = env.func.qualname + '.<locals>.'
        f.qualname = prefix + f.name
        f.defaults = [self.ev(d, env) for d in node.args.defaults]
        f.kwdefaults = [MISSING if d is None else self.ev(d, env)
                        for d in node.args.kw_defaults]
        info = getattr(node, '_info', None)
        if info is None:
            body = [node.body] if isinstance(node, ast.Lambda) else node.body
            info = node._info = _scan(body, node.args)
        f.info = info
        f.isgen = info.isgen
        f.localnames = info.local
        f.attrs = {}
        return f

    def e_Lambda(self, n, env):
        return self.make_func(n, env)

    def s_ClassDef(self, s, env):
        bases = []
        for b in s.bases:
            if isinstance(b, ast.Starred):
                bases.extend(self.as_list(self.ev(b.value, env)))
            else:
                bases.append(self.ev(b, env))
        kw = {k.arg: self.ev(k.value, env) for k in s.keywords if k.arg}
        bases = [self.res(b) for b in bases]
        bases = [b.pytype if isinstance(b, VBuiltin) and b.pytype is not None
                 else b for b in bases]
        if any(isinstance(b, (Sym,)) or not isinstance(b, (VClass, type))
               for b in bases):
            bases = [b for b in bases if isinstance(b, (VClass, type))]
            self.imprecise('unknown base class of %s' % s.name)
        meta = kw.pop('metaclass', None)
        for b in bases:
            m = b.meta if isinstance(b, VClass) else type(b)
            if meta is None or self.issub(m, meta):
                meta = m
        if meta is None:
            meta = type
        cenv = ClassEnv(env, env.module, (), env.func)
        qual = s.name
        if isinstance(env, ClassEnv):
            qual = env.vars.get('__qualname__', '') + '.' + s.name
        cenv.vars['__qualname__'] = qual
        cenv.vars['__module__'] = env.module.name
        doc = ast.get_docstring(s, clean=False)
        if doc is not None:
            cenv.vars['__doc__'] = doc
        info = getattr(s, '_info', None)
        if info is None:
            info = s._info = _scan(s.body)
        cenv.globals_ = info.globals_
        self.block(s.body, cenv)
        ns = self.dict(cenv.vars.items())
        if isinstance(meta, VClass):
            c = self.call(meta, [s.name, tuple(bases), ns], kw)
        elif meta is type:
            c = self.type_new(type, [s.name, tuple(bases), ns], kw)
        else:
            c = self.type_new(meta, [s.name, tuple(bases), ns], kw)
        if isinstance(c, VClass):
            cenv.self_cls = c
            c.node = s
            c.module = env.module
            c.qualname = qual
            c.ns.pop('__qualname__', None)
        for d in reversed(s.decorator_list):
            c = self.call(self.ev(d, env), [c], {})
        self.name_store(s.name, c, env)

    def type_new(self, meta, args, kwargs):
        if len(args) == 1:
            return self.type_of(args[0])
        name, bases, ns = args[:3]
        name = self.res(name)
        bases = list(self.as_list(bases))
        m = meta
        for b in bases:
            bm = b.meta if isinstance(b, VClass) else type(b)
            if m is not bm and self.issub(bm, m):
                m = bm
        d = {}
        for k, v in self.pairs(ns):
            if k in ('__new__', '__init_subclass__', '__class_getitem__',
                     '__subclasshook__') and isinstance(v, VFunc):
                v = VDescr('staticmethod' if k == '__new__' else
                           'classmethod', v)
            d[k] = v
        if '__eq__' in d and '__hash__' not in d:
            d['__hash__'] = None
        modname = d.get('__module__')
        mod = self.modules.get(modname) if isinstance(modname, str) else None
        try:
            c = VClass(name, bases or [object], d, m, mod, self.run.rid)
        except TypeError as e:
            self.throw(TypeError, str(e))
        c.ns.pop('__module__', None)
        if '__qualname__' in c.ns:
            c.qualname = c.ns['__qualname__']
        for b in bases:
            if isinstance(b, VClass):
                b.subs.append(c)
        for k, v in list(d.items()):
            if isinstance(v, VObj):
                sn = self.user_lookup(v.cls, '__set_name__')
                if sn is not MISSING:
                    self.call(VBound(sn, v), [c, k], {})
        for b in c.mro[1:]:
            if isinstance(b, VClass) and '__init_subclass__' in b.ns:
                f = b.ns['__init_subclass__']
                self.call(VBound(f.fget if isinstance(f, VDescr) else f, c),
                          [], kwargs)
                break
        return c

    def s_Import(self, s, env):
        for a in s.names:
            m = self.import_(a.name)
            if a.asname:
                self.name_store(a.asname, m, env)
            else:
                top = a.name.split('.')[0]
                self.name_store(top, self.import_(top), env)

    def s_ImportFrom(self, s, env):
        base = self.resolve_from(s, env.module)
        if base == '__future__':
            return
        m = self.import_(base)
        for a in s.names:
            if a.name == '*':
                self.import_star(m, env)
                continue
            if isinstance(m, VModule):
                if a.name in m.ns:
                    v = m.ns[a.name]
                else:
                    try:
                        v = self.import_(base + '.' + a.name)
                    except Raised:
                        self.throw(ImportError, 'cannot import name %s' %
                                   a.name)
            else:
                v = getattr(m, a.name, MISSING)
                if v is MISSING:
                    try:
                        v = importlib.import_module(base + '.' + a.name)
                    except ImportError:
                        self.throw(ImportError, 'cannot import name %s' %
                                   a.name)
                v = self.to_abs(v)
            self.name_store(a.asname or a.name, v, env)

    def resolve_from(self, s, module):
        if not s.level:
            return s.module
        parts = module.name.split('.')
        if not module.is_pkg:
            parts = parts[:-1]
        up = s.level - 1
        if up:
            parts = parts[:-up]
        if s.module:
            parts.append(s.module)
        return '.'.join(parts)

    def import_star(self, m, env):
        if isinstance(m, VModule):
            names = m.ns.get('__all__', MISSING)
            if names is not MISSING:
                names = [x for x in self.as_list(names)]
                for n in names:
                    if n not in m.ns:
                        sub = m.name + '.' + n
                        try:
                            m.ns[n] = self.import_(sub)
                        except Raised:
                            self.throw(AttributeError, n)
            else:
                names = [n for n in m.ns if not n.startswith('_')]
            for n in names:
                self.name_store(n, m.ns[n], env)
        else:
            names = getattr(m, '__all__', None) or [
                n for n in dir(m) if not n.startswith('_')]
            for n in names:
                self.name_store(n, self.to_abs(getattr(m, n)), env)

    # ---------------------------------------------------------- module load

    def import_(self, name):
        if name in self.modules:
            return self.modules[name]
        if name.split('.')[0] == self.package:
            if '.' in name:
                parent = name.rpartition('.')[0]
                if parent not in self.modules:
                    self.import_(parent)
                    if name in self.modules:
                        return self.modules[name]
            return self.load(name)
        if name in self.lib_modules:
            return self.lib_modules[name]
        if name.split('.')[0] in self.importable:
            try:
                return importlib.import_module(name)
            except ImportError:
                self.throw(ImportError, 'No module named %s' % name)
        self.throw(ImportError, 'No module named %s' % name)

    def load(self, name):
        rel = name.split('.')
        base = os.path.join(self.root, *rel)
        if name in self.stubs:
            m = VModule(name, '<stub>', self.run.rid)
            m.ns.update(self.stubs[name])
            self.modules[name] = m
        else:
            if os.path.isdir(base) and os.path.exists(
                    os.path.join(base, '__init__.py')):
                path, pkg = os.path.join(base, '__init__.py'), True
            elif os.path.exists(base + '.py'):
                path, pkg = base + '.py', False
            else:
                self.throw(ImportError, 'No module named %s' % name)
            m = VModule(name, path, self.run.rid, pkg)
            self.modules[name] = m
            with open(path, encoding='utf-8') as fh:
                src = fh.read()
            try:
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    tree = ast.parse(src, path)
            except SyntaxError as e:
                raise AnalysisError('%s does not parse: %s' % (path, e))
            short = os.path.relpath(path, self.root)
            for n in ast.walk(tree):
                n._file = short
            self.trees[name] = tree
            m.ns.update({'__name__': name, '__file__': path,
                         '__doc__': ast.get_docstring(tree, clean=False),
                         '__package__': name if pkg else
                         name.rpartition('.')[0]})
            env = Env(None, m)
            save = (self.cur, getattr(self, '_curfunc', None))
            self._curfunc = None
            try:
                self.block(tree.body, env)
            except Raised:
                del self.modules[name]
                raise
            finally:
                self.cur, self._curfunc = save
        m.loaded = True
        if '.' in name:
            parent, _, leaf = name.rpartition('.')
            if parent in self.modules:
                self.modules[parent].ns.setdefault(leaf, m)
                if self.modules[parent].ns.get(leaf) is not m and \
                        not self.modules[parent].loaded:
                    self.modules[parent].ns[leaf] = m
        return m

    def harness_exec(self, tree, m):
        m.ns.update({'__name__': m.name, '__file__': m.path, '__doc__': None,
                     '__package__': ''})
        m.loaded = True
        save = (self.cur, self._curfunc)
        self._curfunc = None
        try:
            self.block(tree.body, Env(None, m))
        finally:
            self.cur, self._curfunc = save

    # ---------------------------------------------------------------- names

    def owner(self, name, env):
        """The environment that binds name, or None for the module."""
        e = env
        if name in e.globals_:
            return None
        if isinstance(e, ClassEnv):
            if name in e.vars:
                return e
            return None
        while e is not None:
            if not (isinstance(e, ClassEnv) and e is not env):
                if name in e.local or name in e.vars:
                    return e
            e = e.parent
        return None

    def name_load(self, name, env):
        e = env
        if name not in e.globals_:
            while e is not None:
                if not (isinstance(e, ClassEnv) and e is not env):
                    v = e.vars
                    if name in v:
                        return v[name]
                    if name in e.local:
                        if e is env:
                            self.throw(UnboundLocalError, 'cannot access '
                                       'local variable %r' % name)
                        self.throw(NameError, 'cannot access free variable %r'
                                   % name)
                    if name in e.globals_:
                        break
                e = e.parent
        m = env.module.ns
        if name in m:
            return m[name]
        if name == '__class__':
            c = self.cell_class(env)
            if c is not None:
                return c
        if name in self.builtins:
            return self.builtins[name]
        self.throw(NameError, 'name %r is not defined' % name)

    def cell_class(self, env):
        e = env
        while e is not None:
            if isinstance(e, ClassEnv) and e is not env:
                return e.self_cls
            e = e.parent
        return None

    def name_store(self, name, v, env):
        if name in env.globals_:
            self.module_set(env.module, name, v)
            return
        if isinstance(env, ClassEnv):
            env.vars[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if not isinstance(e, ClassEnv) and (name in e.local or
                                                    name in e.vars):
                    e.vars[name] = v
                    return
                e = e.parent
        if env.func is None and env.parent is None:
            self.module_set(env.module, name, v)
            return
        env.vars[name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.name_store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.res(v)
            if isinstance(v, Sym) and v.pytype is None:
                xs = [self.top('unpacked') for _ in t.elts]
                for e, x in zip(t.elts, xs):
                    if isinstance(e, ast.Starred):
                        self.assign(e.value, self.list([x]), env)
                    else:
                        self.assign(e, x, env)
                return
            if isinstance(v, Sym) and v.pytype is list and \
                    'unpack' in v.attrs:
                xs = v.attrs['unpack'](self, len(t.elts))
            else:
                xs = self.as_list(v)
            star = [i for i, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(xs) < len(t.elts) - 1:
                    self.throw(ValueError, 'not enough values to unpack')
                for e, x in zip(t.elts[:i], xs):
                    self.assign(e, x, env)
                mid = xs[i:len(xs) - after]
                self.assign(t.elts[i].value, self.list(mid), env)
                for e, x in zip(t.elts[i + 1:], xs[len(xs) - after:]):
                    self.assign(e, x, env)
                return
            if len(xs) != len(t.elts):
                self.throw(ValueError, 'not enough values to unpack'
                           if len(xs) < len(t.elts)
                           else 'too many values to unpack')
            for e, x in zip(t.elts, xs):
                self.assign(e, x, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, self.list(self.as_list(v)), env)
        else:
            raise Budget('assignment target')

    # ---------------------------------------------------------- expressions

    def ev(self, n, env):
        f = self.expr_dispatch.get(type(n))
        if f is None:
            raise Budget('unsupported expression %s' % type(n).__name__)
        return f(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.res(self.name_load(n.id, env))

    def e_Attribute(self, n, env):
        o = self.ev(n.value, env)
        self.cur = n
        name = n.attr
        if name.startswith('__') and not name.endswith('__'):
            name = self.mangle(name, env)
        return self.res(self.getattr0(o, name))

    def mangle(self, name, env):
        e = env
        while e is not None:
            if isinstance(e, ClassEnv):
                q = e.vars.get('__qualname__', '').split('.')[-1]
                return '_%s%s' % (q.lstrip('_'), name)
            e = e.parent
        return name

    def e_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def e_List(self, n, env):
        return self.list(self.elts(n.elts, env))

    def e_Set(self, n, env):
        return self.set(self.elts(n.elts, env))

    def elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.as_list(self.ev(e.value, env)))
            else:
                out.append(self.ev(e, env))
        return out

    def e_Dict(self, n, env):
        d = self.dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                for a, b in self.pairs(self.ev(v, env)):
                    self.dict_set(d, a, b)
            else:
                kk = self.ev(k, env)
                self.dict_set(d, kk, self.ev(v, env))
        return d

    def pairs(self, v):
        """(key, value) pairs of a mapping or of an iterable of pairs."""
        v = self.res(v)
        if isinstance(v, VObj) and isinstance(v.payload, VDict):
            v = v.payload
        if isinstance(v, VDict):
            return list(v.d.values())
        if isinstance(v, VObj):
            ks = self.getattr_(v, 'keys', None)
            if ks is not None:
                return [(k, self.getitem(v, k))
                        for k in self.as_list(self.call(ks, [], {}))]
        out = []
        for p in self.iterate(v):
            xs = self.as_list(p)
            if len(xs) != 2:
                self.throw(ValueError, 'dictionary update sequence element '
                           'has length %d; 2 is required' % len(xs))
            out.append((xs[0], xs[1]))
        return out

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, env)
            if i == len(n.values) - 1:
                return v
            self.cur = n
            t = self.truth(v)
            if isand and not t:
                return self.res(v)
            if not isand and t:
                return self.res(v)
        return v

    def e_UnaryOp(self, n, env):
        v = self.res(self.ev(n.operand, env))
        self.cur = n
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            l = self.lin(v)
            if l is not None and isinstance(v, AbsVal):
                return self.lin_op(Lin({}, 0), l, -1)
        if isinstance(v, VObj):
            m = {ast.USub: '__neg__', ast.UAdd: '__pos__',
                 ast.Invert: '__invert__'}[type(n.op)]
            f = self.lookup_special(v, m)
            if f is not None:
                return self.call(f, [], {})
            self.throw(TypeError, 'bad operand type for unary operator')
        if isinstance(v, AbsVal):
            return self.top('unary operator')
        try:
            return {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x,
                    ast.Invert: lambda x: ~x}[type(n.op)](v)
        except TypeError as e:
            self.throw(TypeError, str(e))

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        self.cur = n
        return self.res(self.binop(OPS[type(n.op)], a, b))

    def e_Compare(self, n, env):
        a = self.ev(n.left, env)
        r = True
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            b = self.ev(c, env)
            self.cur = n
            r = self.cmpop(op, a, b)
            if i < len(n.ops) - 1:
                if not self.truth(r):
                    return r
            a = b
        return r

    def cmpop(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return not self.is_(a, b)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return not self.truth(self.contains(b, a))
        return self.rich(CMPS[type(op)], a, b)

    def is_(self, a, b):
        a, b = self.res(a), self.res(b)
        if a is b:
            return True
        if isinstance(a, VBuiltin) and a.pytype is not None:
            a = a.pytype
        if isinstance(b, VBuiltin) and b.pytype is not None:
            b = b.pytype
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.pytype is None:
                k = ('is', self.key(y))
                if k not in x.preds:
                    self.imprecise('identity of %s' % x.attrs.get('why',
                                                                  x.name))
                    x.preds[k] = self.choose(2, 'is') == 0
                return x.preds[k]
        if isinstance(a, VBound) and isinstance(b, VBound):
            return False
        if not isinstance(a, AbsVal) and not isinstance(b, AbsVal):
            if isinstance(a, (int, str, bool)) and type(a) is type(b):
                return a == b
        return False

    def contains(self, c, x):
        c = self.res(c)
        if isinstance(c, VDict):
            return self.find_key(c.d, x) is not MISSING
        if isinstance(c, VView) and c.kind == 'keys':
            return self.find_key(c.d.d, x) is not MISSING
        if isinstance(c, VSet):
            return self.find_key(c.d, x) is not MISSING
        if isinstance(c, VObj):
            f = self.lookup_special(c, '__contains__')
            if f is not None:
                return self.truth(self.call(f, [x], {}))
            if c.payload is not None:
                return self.contains(c.payload, x)
        if isinstance(c, str):
            x = self.res(x)
            if isinstance(x, str):
                return x in c
            if isinstance(x, (Sym, Tmpl)):
                return self.truth(self.term('in', [x, c], bool))
            self.throw(TypeError, "'in <string>' requires string")
        if isinstance(c, Tmpl) or (isinstance(c, Sym) and c.pytype is str):
            return self.str_contains(c, x)
        if isinstance(c, Sym):
            if c.pytype is None:
                return self.truth(self.top('membership in unknown'))
        if isinstance(c, AbsVal) or isinstance(c, tuple):
            for y in self.iterate(c):
                if self.res(y) is self.res(x) or self.compare('==', x, y) \
                        is True:
                    return True
            return False
        x = self.res(x)
        if isinstance(x, AbsVal):
            for y in self.iterate(c):
                if self.compare('==', x, y):
                    return True
            return False
        try:
            return x in c
        except TypeError as e:
            self.throw(TypeError, str(e))

    def e_IfExp(self, n, env):
        if self.truth(self.ev(n.test, env)):
            return self.ev(n.body, env)
        return self.ev(n.orelse, env)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        e = env
        while e.func is None and e.parent is not None and \
                getattr(e, 'local', None) == 'comp':
            e = e.parent
        self.name_store(n.target.id, v, env if e is env else e)
        return v

    def e_Subscript(self, n, env):
        o = self.ev(n.value, env)
        k = self.ev(n.slice, env)
        self.cur = n
        return self.res(self.getitem(o, k))

    def e_Slice(self, n, env):
        xs = [None if x is None else self.ev(x, env)
              for x in (n.lower, n.upper, n.step)]
        return self.make_slice(*xs)

    def make_slice(self, a, b, c):
        xs = [self.res(x) for x in (a, b, c)]
        if not any(isinstance(x, AbsVal) for x in xs):
            return slice(*xs)
        o = VObj(slice, self.run.rid)
        o.attrs.update(start=xs[0], stop=xs[1], step=xs[2])
        return o

    def slice_indices(self, xs, n):
        start, stop, step = [self.res(x) for x in xs]
        if any(x is not None and self.lin(x) is None
               for x in (start, stop, step)) or self.lin(n) is None:
            return self.top('indices of unknown slice')
        if step is None:
            step = 1
        if self.int_cmp('==', step, 0):
            self.throw(ValueError, 'slice step cannot be zero')
        if self.int_cmp('<', n, 0):
            self.throw(ValueError, 'length should not be negative')
        neg = self.int_cmp('<', step, 0)
        lower = -1 if neg else 0
        upper = self.binop('-', n, 1) if neg else n

        def clip(v, default):
            if v is None:
                return default
            if self.int_cmp('<', v, 0):
                v = self.binop('+', v, n)
                return lower if self.int_cmp('<', v, lower) else v
            return upper if self.int_cmp('>', v, upper) else v
        return (clip(start, upper if neg else lower),
                clip(stop, lower if neg else upper), step)

    def range_len(self, r):
        start, stop, step = [r.attrs[k] for k in ('start', 'stop', 'step')]
        if self.int_cmp('<', step, 0):
            start, stop, step = stop, start, self.binop('-', 0, step)
        d = self.binop('-', stop, start)
        if self.int_cmp('<=', d, 0):
            return 0
        if self.lin(step).coefs:
            if self.int_cmp('>=', step, d):
                return 1
            return self.term('range length', [d, step], int, lo=1)
        return self.binop('//', self.binop('+', d, self.binop(
            '-', step, 1)), step)

    def e_Starred(self, n, env):
        return self.ev(n.value, env)

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.e_FormattedValue(v, env))
        return self.text(parts)

    def e_FormattedValue(self, n, env):
        v = self.ev(n.value, env)
        if n.conversion == 115:
            v = self.str_(v)
        elif n.conversion == 114:
            v = self.repr_(v)
        elif n.conversion == 97:
            v = self.repr_(v)
        spec = self.ev(n.format_spec, env) if n.format_spec is not None else ''
        return self.format_(v, spec)

    def e_Call(self, n, env):
        # zero argument super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and \
                not n.args:
            f = env.func
            e = env
            while f is not None and e is not None and not e.vars:
                e = e.parent
            c = self.cell_class(env)
            first = None
            fn = env.func
            ee = env
            while ee is not None and ee.func is fn:
                for a in (fn.node.args.posonlyargs + fn.node.args.args):
                    if a.arg in ee.vars:
                        first = ee.vars[a.arg]
                    break
                if first is not None:
                    break
                ee = ee.parent
            if c is None:
                self.throw(RuntimeError, 'super(): no arguments')
            return VSuper(c, first)
        f = self.ev(n.func, env)
        args = self.elts(n.args, env)
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                for a, b in self.pairs(self.ev(k.value, env)):
                    a = self.res(a)
                    if isinstance(a, Sym):
                        self.imprecise('symbolic keyword name')
                        a = a.name
                    if not isinstance(a, str):
                        self.throw(TypeError, 'keywords must be strings')
                    if a in kwargs:
                        self.throw(TypeError, 'multiple values for keyword '
                                   'argument %r' % a)
                    kwargs[a] = b
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        self.cur = n
        if f is self.builtins.get('globals'):
            return self.module_dict(env.module)
        if f is self.builtins.get('locals'):
            return self.dict(env.vars.items())
        if f is self.builtins.get('vars') and not args:
            return self.dict(env.vars.items())
        return self.res(self.call(f, args, kwargs))

    # comprehensions --------------------------------------------------------

    def comp_env(self, env):
        e = Env(env, env.module, (), env.func)
        # names of an enclosing class body are visible only to the first
        # iterable, which is evaluated outside
        return e

    def comp(self, gens, env, body, cenv=None):
        """Host generator: yields body(env) for each combination."""
        cenv = self.comp_env(env)

        def level(i):
            if i == len(gens):
                yield body(cenv)
                return
            g = gens[i]
            it = self.ev(g.iter, env if i == 0 else cenv)
            for x in self.iterate(it):
                self.step()
                self.assign_comp(g.target, x, cenv)
                if all(self.truth(self.ev(c, cenv)) for c in g.ifs):
                    for y in level(i + 1):
                        yield y
        return level(0)

    def assign_comp(self, t, x, cenv):
        if isinstance(t, ast.Name):
            cenv.vars[t.id] = x
        else:
            # bind every name of the target in the comprehension scope
            cenv.local = frozenset(
                n.id for n in ast.walk(t) if isinstance(n, ast.Name) and
                isinstance(n.ctx, ast.Store)) | frozenset(cenv.local)
            cenv2 = cenv
            self.assign(t, x, cenv2)

    def e_ListComp(self, n, env):
        return self.list(self.comp(n.generators, env,
                                   lambda e: self.ev(n.elt, e)))

    def e_SetComp(self, n, env):
        return self.set(self.comp(n.generators, env,
                                  lambda e: self.ev(n.elt, e)))

    def e_DictComp(self, n, env):
        return self.dict(self.comp(n.generators, env, lambda e: (
            self.ev(n.key, e), self.ev(n.value, e))))

    def e_GeneratorExp(self, n, env):
        # the first iterable is evaluated immediately
        first = self.ev(n.generators[0].iter, env)
        cenv = self.comp_env(env)

        def level(i):
            if i == len(n.generators):
                yield self.ev(n.elt, cenv)
                return
            g = n.generators[i]
            it = first if i == 0 else self.ev(g.iter, cenv)
            for x in self.iterate(it):
                self.step()
                self.assign_comp(g.target, x, cenv)
                if all(self.truth(self.ev(c, cenv)) for c in g.ifs):
                    for y in level(i + 1):
                        yield y
        return VIter(level(0))

    # generator functions ---------------------------------------------------

    def gblock(self, stmts, env):
        for s in stmts:
            if not has_yield(s):
                self.stmt(s, env)
                continue
            for v in self.gstmt(s, env):
                yield v

    def gstmt(self, s, env):
        self.step()
        self.cur = s
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield):
            yield (None if s.value.value is None
                   else self.ev(s.value.value, env))
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom):
            for x in self.iterate(self.ev(s.value.value, env)):
                yield x
        elif isinstance(s, (ast.Assign, ast.Return)) and isinstance(
                s.value, (ast.Yield, ast.YieldFrom)):
            if isinstance(s.value, ast.Yield):
                yield (None if s.value.value is None
                       else self.ev(s.value.value, env))
            else:
                for x in self.iterate(self.ev(s.value.value, env)):
                    yield x
            if isinstance(s, ast.Return):
                raise _Return(None)
            for t in s.targets:
                self.assign(t, None, env)
        elif isinstance(s, ast.If):
            b = s.body if self.truth(self.ev(s.test, env)) else s.orelse
            for v in self.gblock(b, env):
                yield v
        elif isinstance(s, ast.While):
            n = 0
            while self.truth(self.ev(s.test, env)):
                n += 1
                if n > 2000:
                    raise Budget('while loop')
                try:
                    for v in self.gblock(s.body, env):
                        yield v
                except _Break:
                    return
                except _Continue:
                    continue
            for v in self.gblock(s.orelse, env):
                yield v
        elif isinstance(s, ast.For):
            for x in self.iterate(self.ev(s.iter, env)):
                self.assign(s.target, x, env)
                try:
                    for v in self.gblock(s.body, env):
                        yield v
                except _Break:
                    return
                except _Continue:
                    continue
            for v in self.gblock(s.orelse, env):
                yield v
        elif isinstance(s, ast.Try):
            try:
                try:
                    for v in self.gblock(s.body, env):
                        yield v
                except Raised as r:
                    for h in s.handlers:
                        if h.type is None or self.exc_matches(
                                r.exc, self.ev(h.type, env)):
                            if h.name:
                                self.name_store(h.name, r.exc, env)
                            for v in self.gblock(h.body, env):
                                yield v
                            break
                    else:
                        raise
                else:
                    for v in self.gblock(s.orelse, env):
                        yield v
            finally:
                et = sys.exc_info()[0]
                if et is None or issubclass(et, (Raised, _Return, _Break,
                                                 _Continue)):
                    self.block(s.finalbody, env)
        elif isinstance(s, ast.With):
            for it in s.items:
                cm = self.ev(it.context_expr, env)
                v = self.call(self.getattr_(cm, '__enter__'), [], {})
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env)
            for v in self.gblock(s.body, env):
                yield v
        else:
            raise Budget('yield inside %s' % type(s).__name__)

    # match statement ---------------------------------------------------------

    def s_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            if self.match(c.pattern, v, env) and (
                    c.guard is None or self.truth(self.ev(c.guard, env))):
                self.block(c.body, env)
                return

    def match(self, p, v, env):
        v = self.res(v)
        if isinstance(p, ast.MatchValue):
            return self.compare('==', v, self.ev(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env):
                return False
            if p.name:
                self.name_store(p.name, v, env)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (VList, tuple)):
                return False
            xs = self.as_list(v)
            star = [i for i, q in enumerate(p.patterns)
                    if isinstance(q, ast.MatchStar)]
            if not star:
                return len(xs) == len(p.patterns) and all(
                    self.match(q, x, env) for q, x in zip(p.patterns, xs))
            i = star[0]
            after = len(p.patterns) - i - 1
            if len(xs) < len(p.patterns) - 1:
                return False
            if not all(self.match(q, x, env)
                       for q, x in zip(p.patterns[:i], xs)):
                return False
            if p.patterns[i].name:
                self.name_store(p.patterns[i].name,
                                self.list(xs[i:len(xs) - after]), env)
            return all(self.match(q, x, env) for q, x in
                       zip(p.patterns[i + 1:], xs[len(xs) - after:]))
        if isinstance(p, ast.MatchClass):
            c = self.ev(p.cls, env)
            if not self.isinstance_(v, c):
                return False
            if p.patterns:
                ma = self.getattr_(c, '__match_args__', ())
                names = self.as_list(ma)
                if not names and len(p.patterns) == 1:
                    if not self.match(p.patterns[0], v, env):
                        return False
                else:
                    for nm, q in zip(names, p.patterns):
                        a = self.getattr_(v, nm, MISSING)
                        if a is MISSING or not self.match(q, a, env):
                            return False
            for nm, q in zip(p.kwd_attrs, p.kwd_patterns):
                a = self.getattr_(v, nm, MISSING)
                if a is MISSING or not self.match(q, a, env):
                    return False
            return True
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, VDict):
                return False
            for k, q in zip(p.keys, p.patterns):
                x = self.dict_get(v, self.ev(k, env))
                if x is MISSING or not self.match(q, x, env):
                    return False
            return True
        raise Budget('match pattern')

    # ------------------------------------------------------------ operators

    def compare(self, op, a, b):
        """Host bool of a <op> b."""
        return self.truth(self.rich(op, a, b))

    def rich(self, op, a, b):
        a, b = self.res(a), self.res(b)
        if isinstance(a, VObj) or isinstance(b, VObj) or \
                isinstance(a, VClass) or isinstance(b, VClass):
            return self.rich_obj(op, a, b)
        if op == '!=':
            r = self.rich('==', a, b)
            return not self.truth(r)
        if op == '==':
            return self.eq_builtin(a, b)
        return self.order_builtin(op, a, b)

    def rich_obj(self, op, a, b):
        name, refl = RICH[op]
        ta, tb = self.type_of(a), self.type_of(b)
        order = [(a, b, name), (b, a, refl)]
        if ta is not None and tb is not None and ta is not tb and \
                isinstance(tb, VClass) and self.proper_sub(tb, ta):
            order.reverse()
        elif isinstance(ta, type) and isinstance(tb, VClass) and \
                any(x is ta for x in tb.mro) and ta is not object:
            order.reverse()
        for x, y, m in order:
            if not isinstance(x, (VObj, VClass)):
                continue
            f = self.lookup_special(x, m)
            if f is None and m == '__ne__':
                g = self.lookup_special(x, '__eq__')
                if g is not None:
                    r = self.call(g, [y], {})
                    if r is not NotImplemented:
                        return not self.truth(r)
                    continue
            if f is not None:
                if isinstance(f, VBound) and isinstance(
                        f.func, (types.WrapperDescriptorType,
                                 types.MethodDescriptorType)):
                    continue
                r = self.res(self.call(f, [y], {}))
                if r is not NotImplemented:
                    return r
        pa = a.payload if isinstance(a, VObj) and a.payload is not None else a
        pb = b.payload if isinstance(b, VObj) and b.payload is not None else b
        if pa is not a or pb is not b:
            return self.rich(op, pa, pb)
        if isinstance(a, VObj) and isinstance(b, VObj) and a.cls is slice \
                and b.cls is slice and op in ('==', '!='):
            r = all(self.compare('==', a.attrs[k], b.attrs[k])
                    for k in ('start', 'stop', 'step'))
            return r if op == '==' else not r
        if op == '==':
            return a is b
        if op == '!=':
            return a is not b
        self.throw(TypeError, "'%s' not supported between instances of '%s' "
                   "and '%s'" % (op, cls_name(ta), cls_name(tb)))

    def proper_sub(self, c, d):
        return c is not d and any(x is d for x in mro_of(c))

    def eq_builtin(self, a, b):
        if a is b:
            return True
        if isinstance(a, VBuiltin) and a.pytype is not None:
            a = a.pytype
        if isinstance(b, VBuiltin) and b.pytype is not None:
            b = b.pytype
        if isinstance(a, tuple) and isinstance(b, tuple) and \
                type(a) is tuple and type(b) is tuple:
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if self.res(x) is self.res(y):
                    continue
                if not self.compare('==', x, y):
                    return False
            return True
        if isinstance(a, VList) and isinstance(b, VList):
            if len(a.items) != len(b.items):
                return False
            for x, y in zip(a.items, b.items):
                if self.res(x) is self.res(y):
                    continue
                if not self.compare('==', x, y):
                    return False
            return True
        if isinstance(a, VDict) and isinstance(b, VDict):
            if len(a.d) != len(b.d):
                return False
            for k, v in a.d.values():
                w = self.dict_get(b, k)
                if w is MISSING or not self.compare('==', v, w):
                    return False
            return True
        sa, sb = self.setlike(a), self.setlike(b)
        if sa is not None and sb is not None:
            return len(sa) == len(sb) and all(
                any(self.key_equal(x, y) for y in sb) for x in sa)
        la, lb = self.lin(a), self.lin(b)
        if la is not None and lb is not None:
            return self.int_cmp('==', a, b)
        if isinstance(a, HashTerm) or isinstance(b, HashTerm):
            if self.hash_equal(a, b):
                return True
            # hashes of different values may collide
            k = frozenset((self.key(a), self.key(b)))
            memo = self.run.__dict__.setdefault('collisions', {})
            if k not in memo:
                memo[k] = self.choose(2, 'hash collision') == 1
            return memo[k]
        ta, tb = self.type_of(a), self.type_of(b)
        if ta is None or tb is None:
            x = a if ta is None else b
            y = b if ta is None else a
            k = ('eq', self.key(y))
            if k not in x.preds:
                self.imprecise('equality of %s' % x.attrs.get('why', x.name))
                x.preds[k] = self.choose(2, 'eq') == 0
            return x.preds[k]
        if ta is str and tb is str:
            return self.str_eq(a, b)
        if isinstance(a, AbsVal) or isinstance(b, AbsVal):
            num = (int, float, complex, bool)
            if ta in num and tb in num:
                return self.truth(self.term('eq', [a, b], bool))
            if ta is tb and isinstance(a, (Sym, )) and isinstance(b, Sym):
                # unknown values of one library class
                return self.truth(self.term('eq', sorted(
                    [a, b], key=lambda s: s.name), bool))
            return False
        if isinstance(a, tuple) != isinstance(b, tuple):
            return False
        try:
            return bool(a == b)
        except Exception:
            return False

    def setlike(self, a):
        if isinstance(a, VSet):
            return list(a.d.values())
        if isinstance(a, VView) and a.kind == 'keys':
            return [k for k, _ in a.d.d.values()]
        return None

    def hash_rank(self, h):
        """Some total order of hashes; its direction is that of sets."""
        for n, x in enumerate(self.run.ranks):
            if x is h or self.compare('==', x, h):
                return n
        self.run.ranks.append(h)
        return len(self.run.ranks) - 1

    def order_builtin(self, op, a, b):
        if isinstance(a, HashTerm) and isinstance(b, HashTerm):
            x, y = self.hash_rank(a), self.hash_rank(b)
            if x != y:
                self.run.unordered += 1
            if self.order != 'ins':
                x, y = y, x
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        la, lb = self.lin(a), self.lin(b)
        if la is not None and lb is not None:
            return self.int_cmp(op, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) or (
                isinstance(a, VList) and isinstance(b, VList)):
            xs, ys = self.as_list(a), self.as_list(b)
            for x, y in zip(xs, ys):
                if self.res(x) is self.res(y) or self.compare('==', x, y):
                    continue
                return self.rich(op, x, y)
            return {'<': len(xs) < len(ys), '<=': len(xs) <= len(ys),
                    '>': len(xs) > len(ys), '>=': len(xs) >= len(ys)}[op]
        sa, sb = self.setlike(a), self.setlike(b)
        if sa is not None and sb is not None:
            sub = lambda p, q: all(any(self.key_equal(x, y) for y in q)
                                   for x in p)
            if op == '<=':
                return sub(sa, sb)
            if op == '>=':
                return sub(sb, sa)
            if op == '<':
                return len(sa) < len(sb) and sub(sa, sb)
            return len(sb) < len(sa) and sub(sb, sa)
        ta, tb = self.type_of(a), self.type_of(b)
        if isinstance(a, AbsVal) or isinstance(b, AbsVal):
            if ta is None or tb is None:
                return self.truth(self.top('ordering of unknown'))
            num = (int, float, bool)
            if ta is str and tb is str:
                return self.str_order(op, a, b)
            if ta in num and tb in num:
                return self.truth(self.term(op, [a, b], bool))
            if ta is tb and isinstance(a, Sym) and ta not in (dict, set):
                return self.truth(self.term(op, [a, b], bool))
            self.throw(TypeError, "'%s' not supported between instances of "
                       "'%s' and '%s'" % (op, cls_name(ta), cls_name(tb)))
        try:
            return {'<': lambda: a < b, '<=': lambda: a <= b,
                    '>': lambda: a > b, '>=': lambda: a >= b}[op]()
        except TypeError as e:
            self.throw(TypeError, str(e))

    def str_order(self, op, a, b):
        if op in ('>', '>='):
            return self.str_order({'>': '<', '>=': '<='}[op], b, a)
        # an arbitrary but consistent total order of unknown texts
        if op == '<=':
            if self.str_eq(a, b):
                return True
            return self.str_order('<', a, b)
        if self.str_eq(a, b):
            return False
        ka, kb = self.key(a), self.key(b)
        facts = self.run.terms.setdefault('strorder', {})
        if (ka, kb) in facts:
            return facts[ka, kb]
        r = self.choose(2, '%s < %s' % (self.show(a), self.show(b))) == 0
        facts[ka, kb] = r
        facts[kb, ka] = not r
        # transitive closure; an inconsistent choice is infeasible
        lt = set(k for k, v in facts.items() if v)
        changed = True
        while changed:
            changed = False
            for x, y in list(lt):
                for u, v in list(lt):
                    if y == u and (x, v) not in lt:
                        if x == v or facts.get((x, v)) is False:
                            raise Infeasible()
                        lt.add((x, v))
                        facts[x, v] = True
                        facts[v, x] = False
                        changed = True
        return r

    def str_eq(self, a, b):
        a, b = self.res(a), self.res(b)
        if not isinstance(a, AbsVal) and not isinstance(b, AbsVal):
            return a == b
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a is b:
                return True
            if b in a.neq or a in b.neq:
                return False
            if a.generic and b.generic:
                return False
            if a.lang is not None and b.lang is not None and \
                    a.lang is not b.lang and (a.lang & b.lang).empty():
                return False
            if self.choose(2, '%s == %s' % (a.name, b.name)) == 0:
                self.unify(a, b)
                return True
            a.neq.add(b)
            b.neq.add(a)
            return False
        if isinstance(b, Sym):
            a, b = b, a
        if isinstance(a, Sym):
            if isinstance(b, str):
                if a.generic or b in a.neq:
                    return False
                if 'pre' in a.attrs:
                    lit = rx.literal(b)
                    if self.refine(a, lit, ~lit, '%s == %r' % (a.name, b)):
                        a.val = b
                        return True
                    a.neq.add(b)
                    return False
                if a.term is not None and not a.term[0].startswith('sk:') \
                        and a.term[0] != 'char0':
                    self.imprecise('equality of %s' % a.name)
                if a.lang is not None and not a.lang.contains(b):
                    return False
                lt = a.preds.get('len')
                if lt is not None:
                    # the length is constrained through its own symbol
                    lo, hi = self.bounds(lt)
                    if (lo is not None and len(b) < lo) or \
                            (hi is not None and len(b) > hi):
                        return False
                if self.choose(2, '%s == %r' % (a.name, b)) == 0:
                    a.val = b
                    self.check_preds(a, b)
                    return True
                a.neq.add(b)
                return False
            if isinstance(b, Tmpl):
                k = ('eq', self.key(b))
                if k not in a.preds:
                    a.preds[k] = self.choose(2, '%s == %r' % (a.name, b)) == 0
                return a.preds[k]
        # templates
        return self.tmpl_eq(a, b)

    def check_preds(self, s, const):
        """s was bound to const: earlier decisions about s must agree."""
        for k, v in s.preds.items():
            if isinstance(k, tuple) and len(k) == 2 and k[0] in STR_METHODS:
                try:
                    if getattr(const, k[0])(*k[1]) != v:
                        raise Infeasible()
                except (TypeError, AttributeError):
                    pass
            elif k == 'len':
                w = self.res(v)
                if isinstance(w, int):
                    if w != len(const):
                        raise Infeasible()
                elif isinstance(w, Sym):
                    lo, hi = w.lo, w.hi
                    if (lo is not None and len(const) < lo) or \
                            (hi is not None and len(const) > hi) or \
                            len(const) in w.neq:
                        raise Infeasible()
                    w.val = len(const)

    def tmpl_eq(self, a, b):
        import re
        ka, kb = self.key(a), self.key(b)
        if ka == kb:
            return True
        facts = self.run.terms.setdefault('tmpleq', {})
        k = (ka, kb) if repr(ka) < repr(kb) else (kb, ka)
        if k in facts:
            return facts[k]
        if isinstance(a, str):
            a, b = b, a
        if isinstance(b, str):
            rx = ''
            for p in a.parts:
                if isinstance(p, str):
                    rx += re.escape(p)
                elif p.fmt == 'd':
                    rx += r'(-?\d+)'
                elif p.fmt == 'r':
                    rx += r'''(['"].*['"])'''
                else:
                    rx += r'(.*)'
            m = re.match('(?:%s)\\Z' % rx, b, re.S)
            if not m:
                return False
            holes = [p for p in a.parts if isinstance(p, Hole)]
            if len(holes) == 1:
                h = holes[0]
                t = m.group(1)
                if h.fmt == 'd':
                    if str(int(t)) != t:
                        return False
                    return self.int_cmp('==', h.val, int(t))
                if h.fmt == 's':
                    return self.str_eq(h.val, t)
        else:
            # two templates: aligned pieces with equal literals compare
            # hole by hole
            if len(a.parts) == len(b.parts) and all(
                    (isinstance(p, str) and p == q) or
                    (isinstance(p, Hole) and isinstance(q, Hole) and
                     p.fmt == q.fmt) for p, q in zip(a.parts, b.parts)) and \
                    sum(isinstance(p, Hole) for p in a.parts) == 1:
                for p, q in zip(a.parts, b.parts):
                    if isinstance(p, Hole):
                        if p.fmt == 'd':
                            return self.int_cmp('==', p.val, q.val)
                        return self.compare('==', p.val, q.val)
            # different constant prefix or suffix: certainly different
            def ends(t, i):
                return t.parts[i] if isinstance(t.parts[i], str) else ''
            p, q = ends(a, 0), ends(b, 0)
            n = min(len(p), len(q))
            if p[:n] != q[:n]:
                return False
            p, q = ends(a, -1), ends(b, -1)
            n = min(len(p), len(q))
            if n and p[-n:] != q[-n:]:
                return False
        self.imprecise('equality of two text templates')
        r = self.choose(2, 'template equality') == 0
        facts[k] = r
        return r

    def binop(self, op, a, b):
        a, b = self.res(a), self.res(b)
        if isinstance(a, (VObj, VClass)) or isinstance(b, (VObj, VClass)):
            r = self.binop_obj(op, a, b)
            if r is not MISSING:
                return r
            pa = a.payload if isinstance(a, VObj) and a.payload is not None \
                else a
            pb = b.payload if isinstance(b, VObj) and b.payload is not None \
                else b
            if pa is not a or pb is not b:
                return self.binop(op, pa, pb)
            if op == '%' and self.type_of(a) is str:
                return self.percent(a, b)
            if op == '|' and isinstance(a, (VClass, type)) and \
                    isinstance(b, (VClass, type)):
                return (a, b)
            self.throw(TypeError, "unsupported operand type(s) for %s: "
                       "'%s' and '%s'" % (op, cls_name(self.type_of(a)),
                                          cls_name(self.type_of(b))))
        ta, tb = self.type_of(a), self.type_of(b)
        if op == '%' and ta is str:
            return self.percent(a, b)
        if op == '+':
            if ta is str and tb is str:
                return self.text([a, b])
            if isinstance(a, VList) and isinstance(b, VList):
                return self.list(a.items + b.items)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return tuple(a) + tuple(b)
            if (isinstance(a, VList) and tb is not None) or \
                    (isinstance(b, VList) and ta is not None):
                self.throw(TypeError, 'can only concatenate list to list')
        if op == '*':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, VList) and isinstance(y, int):
                    return self.list(x.items * y)
                if isinstance(x, tuple) and isinstance(y, int):
                    return x * y
                if isinstance(x, (VList, tuple)) and isinstance(
                        y, AbsVal) and self.type_of(y) is int:
                    self.imprecise('repetition by unknown count')
                    return self.top('repetition')
                if self.type_of(x) is str and self.type_of(y) is int and (
                        isinstance(x, AbsVal) or isinstance(y, AbsVal)):
                    if isinstance(y, int):
                        return self.text([x] * max(y, 0))
                    return self.term('repeat', [x, y], str)
        if isinstance(a, VSet) or isinstance(b, VSet) or \
                isinstance(a, VView) or isinstance(b, VView):
            sa, sb = self.setlike(a), self.setlike(b)
            if sa is not None and sb is not None and op in '|&-^':
                frozen = isinstance(a, VSet) and a.frozen
                return self.set_op(op, a, b, frozen)
            self.throw(TypeError, 'unsupported operand for set operator')
        if isinstance(a, VDict) and isinstance(b, VDict) and op == '|':
            return self.dict(list(a.d.values()) + list(b.d.values()))
        if isinstance(a, HashTerm) or isinstance(b, HashTerm):
            if op == '^':
                return HashTerm('xor', (a, b))
            return HashTerm(op, (a, b))
        if not isinstance(a, AbsVal) and not isinstance(b, AbsVal):
            try:
                if self.has_abs(a) or self.has_abs(b):
                    return self.top('operator on abstract tuple')
                return self.to_abs(NATIVE[op](a, b))
            except Exception as e:
                self.throw_native(e)
        la, lb = self.lin(a), self.lin(b)
        if la is not None and lb is not None:
            if op == '+':
                return self.lin_op(la, lb, 1)
            if op == '-':
                return self.lin_op(la, lb, -1)
            if op == '*':
                for x, y in ((la, lb), (lb, la)):
                    if not x.coefs:
                        k = x.const
                        return self.res(Lin({s: c * k for s, c in
                                             y.coefs.items() if c * k},
                                            y.const * k))
            if op in ('//', '%', '/'):
                if self.int_cmp('==', b, 0):
                    self.throw(ZeroDivisionError, 'division by zero')
            if op == '/':
                return self.term('/', [a, b], float)
            if op == '^' or op == '&' or op == '|':
                return self.term(op, [a, b], int)
            if op == '//' and not lb.coefs and lb.const < 0:
                return self.binop('//', self.binop('*', a, -1), -lb.const)
            if op == '//' and not lb.coefs and lb.const > 0:
                # exact division of a multiple and a constant
                k = lb.const
                if all(c % k == 0 for c in la.coefs.values()):
                    return self.res(Lin({s: c // k for s, c in
                                         la.coefs.items()}, la.const // k))
                lo, hi = self.bounds(a)
                return self.term('//', [a, b], int,
                                 lo=None if lo is None else lo // k,
                                 hi=None if hi is None else hi // k)
            if op == '//' and lb.coefs:
                # small multiples of an unknown divisor
                lo, hi = self.bounds(b)
                if hi is not None and hi < 0:
                    return self.binop('//', self.binop('*', a, -1),
                                      self.binop('*', b, -1))
                if lo is not None and lo > 0:
                    for q in (0, -1, 1, -2, 2, 3):
                        d = self.binop('-', a, self.binop('*', b, q))
                        if self.known_le(0, d) and self.known_le(
                                d, self.binop('-', b, 1)):
                            return q
            if op == '%' and not lb.coefs and lb.const > 0:
                if all(c % lb.const == 0 for c in la.coefs.values()):
                    return la.const % lb.const
                return self.term('%', [a, b], int, lo=0, hi=lb.const - 1)
            return self.term(op, [a, b], int)
        if ta is None or tb is None:
            return self.top('operator %s on unknown' % op)
        num = (int, float, bool, complex)
        if ta in num and tb in num:
            return self.term(op, [a, b], complex if complex in (ta, tb)
                             else float)
        if isinstance(a, Sym) and ta not in (str, int, bool, list, tuple,
                                             dict, type(None)):
            return self.top('operator on library object')
        if isinstance(b, Sym) and tb not in (str, int, bool, list, tuple,
                                             dict, type(None)):
            return self.top('operator on library object')
        self.throw(TypeError, "unsupported operand type(s) for %s: '%s' and "
                   "'%s'" % (op, cls_name(ta), cls_name(tb)))

    def binop_obj(self, op, a, b):
        name = DUNDER[op]
        refl = '__r' + name[2:]
        ta, tb = self.type_of(a), self.type_of(b)
        order = [(a, b, name), (b, a, refl)]
        if ta is tb:
            order = order[:1]
        elif ta is not None and tb is not None and isinstance(tb, VClass) \
                and self.proper_sub(tb, ta):
            fr = self.user_lookup(tb, refl)
            fl = self.user_lookup(ta, refl)
            if fr is not MISSING and fr is not fl:
                order.reverse()
        for x, y, m in order:
            if not isinstance(x, (VObj, VClass)):
                continue
            f = self.lookup_special(x, m)
            if f is not None:
                if isinstance(f, VBound) and isinstance(
                        f.func, (types.WrapperDescriptorType,)):
                    continue
                r = self.res(self.call(f, [y], {}))
                if r is not NotImplemented:
                    return r
        return MISSING

    def set_op(self, op, a, b, frozen=False):
        sa = self.set_order(a) if isinstance(a, VSet) else self.setlike(a)
        sb = self.set_order(b) if isinstance(b, VSet) else self.setlike(b)
        hasb = lambda x: self.contains(b, x)
        hasa = lambda x: self.contains(a, x)
        if op == '|':
            out = sa + sb
        elif op == '&':
            out = [x for x in sa if hasb(x)]
        elif op == '-':
            out = [x for x in sa if not hasb(x)]
        else:
            out = [x for x in sa if not hasb(x)] + [x for x in sb
                                                    if not hasa(x)]
        return self.set(out, frozen)

    # --------------------------------------------------------- subscription

    def getitem(self, o, k):
        o, k = self.res(o), self.res(k)
        if isinstance(o, range) and isinstance(k, VObj) and k.cls is slice:
            o2 = VObj(range, self.run.rid)
            o2.attrs.update(start=o.start, stop=o.stop, step=o.step)
            o = o2
        if isinstance(o, VObj) and o.cls is range:
            if isinstance(k, slice):
                xs = [k.start, k.stop, k.step]
            elif isinstance(k, VObj) and k.cls is slice:
                xs = [k.attrs[n] for n in ('start', 'stop', 'step')]
            else:
                return self.top('item of a range')
            r = self.slice_indices(xs, self.range_len(o))
            if not isinstance(r, tuple):
                return r
            a, b, c = r
            at = lambda n: self.binop('+', o.attrs['start'], self.binop(
                '*', n, o.attrs['step']))
            r = VObj(range, self.run.rid)
            r.attrs.update(start=at(a), stop=at(b), step=self.binop(
                '*', c, o.attrs['step']))
            return r
        if isinstance(o, VObj):
            f = self.lookup_special(o, '__getitem__')
            if f is not None and not (isinstance(f, VBound) and isinstance(
                    f.func, (types.WrapperDescriptorType,
                             types.MethodDescriptorType))):
                return self.call(f, [k], {})
            if o.payload is not None:
                return self.getitem(o.payload, k)
            self.throw(TypeError, "'%s' object is not subscriptable" %
                       cls_name(o.cls))
        if isinstance(o, VClass):
            f = self.user_lookup(o.meta, '__getitem__')
            if f is not MISSING and f is not None:
                return self.call(VBound(f, o), [k], {})
            f = self.user_lookup(o, '__class_getitem__')
            if f is not MISSING:
                return self.call(VBound(f.fget if isinstance(f, VDescr) else
                                        f, o), [k], {})
            self.throw(TypeError, "type '%s' is not subscriptable" % o.name)
        if isinstance(k, VObj) and k.cls is not slice and \
                isinstance(o, (VList, tuple, str, range)):
            f = self.lookup_special(k, '__index__')
            if f is None:
                self.throw(TypeError, 'indices must be integers or slices')
            k = self.res(self.call(f, [], {}))
        if isinstance(o, (VList, tuple)):
            xs = o.items if isinstance(o, VList) else o
            if isinstance(k, slice):
                try:
                    r = list(xs)[k]
                except ValueError as e:
                    self.throw(ValueError, str(e))
                except TypeError as e:
                    self.throw(TypeError, str(e))
                return self.list(r) if isinstance(o, VList) else tuple(r)
            if isinstance(k, VObj) and k.cls is slice:
                return self.sym_slice(o, xs, k)
            if isinstance(k, int):
                if -len(xs) <= k < len(xs):
                    return xs[k]
                self.throw(IndexError, 'index out of range')
            l = self.lin(k)
            if l is not None:
                for i in range(len(xs)):
                    if self.int_cmp('==', k, i):
                        return xs[i]
                    if self.int_cmp('==', k, i - len(xs)):
                        return xs[i]
                self.throw(IndexError, 'index out of range')
            if isinstance(k, Sym) and k.pytype is None:
                return self.top('index')
            self.throw(TypeError, 'list indices must be integers or slices, '
                       'not %s' % cls_name(self.type_of(k)))
        if isinstance(o, VDict):
            v = self.dict_get(o, k)
            if v is MISSING:
                if o.default is not None:
                    v = self.call(o.default, [], {})
                    self.dict_set(o, k, v)
                    return v
                self.throw(KeyError, k)
            return v
        if isinstance(o, Tmpl) or (isinstance(o, Sym) and o.pytype is str):
            return self.str_getitem(o, k)
        if isinstance(o, Sym):
            if o.pytype is None:
                return self.top('item of unknown')
            return self.top('item of library object')
        if isinstance(o, VView):
            self.throw(TypeError, 'dict view is not subscriptable')
        if isinstance(o, AbsVal):
            self.throw(TypeError, 'object is not subscriptable')
        if isinstance(k, VObj) and k.cls is slice or isinstance(k, AbsVal):
            return self.top('abstract index into constant')
        try:
            return self.to_abs(o[k])
        except Exception as e:
            self.throw_native(e)

    def sym_slice(self, o, xs, k):
        def conc(v):
            v = self.res(v)
            if not isinstance(v, AbsVal):
                return v
            for i in range(-len(xs), len(xs) + 1):
                if self.int_cmp('==', v, i):
                    return i
            if self.int_cmp('<', v, 0):
                return -len(xs) - 1
            return len(xs) + 1
        s = slice(conc(k.attrs['start']), conc(k.attrs['stop']),
                  conc(k.attrs['step']))
        r = list(xs)[s]
        return self.list(r) if isinstance(o, VList) else tuple(r)

    def setitem(self, o, k, v):
        o, k = self.res(o), self.res(k)
        if isinstance(o, VObj):
            f = self.lookup_special(o, '__setitem__')
            if f is not None and not (isinstance(f, VBound) and isinstance(
                    f.func, (types.WrapperDescriptorType,
                             types.MethodDescriptorType))):
                self.call(f, [k, v], {})
                return
            if o.payload is not None:
                return self.setitem(o.payload, k, v)
            self.throw(TypeError, 'object does not support item assignment')
        if isinstance(o, VList):
            if isinstance(k, int):
                if not -len(o.items) <= k < len(o.items):
                    self.throw(IndexError, 'assignment index out of range')
                old = o.items[k]
                self.mark(o, lambda: o.items.__setitem__(k, old), 'item')
                o.items[k] = v
                return
            if isinstance(k, slice):
                old = list(o.items)
                self.mark(o, lambda: o.items.__setitem__(slice(None), old),
                          'items')
                o.items[k] = self.as_list(v)
                return
            self.imprecise('assignment to unknown index')
            return
        if isinstance(o, VDict):
            self.dict_set(o, k, v)
            return
        if isinstance(o, Sym) and o.pytype is None:
            self.imprecise('item assignment on unknown')
            return
        self.throw(TypeError, "'%s' object does not support item assignment" %
                   cls_name(self.type_of(o)))

    def delitem(self, o, k):
        o, k = self.res(o), self.res(k)
        if isinstance(o, VObj):
            f = self.lookup_special(o, '__delitem__')
            if f is not None:
                self.call(f, [k], {})
                return
            if o.payload is not None:
                return self.delitem(o.payload, k)
        if isinstance(o, VDict):
            self.dict_del(o, k)
            return
        if isinstance(o, VList) and isinstance(k, (int, slice)):
            xs = list(o.items)
            try:
                del xs[k]
            except IndexError:
                self.throw(IndexError, 'index out of range')
            self.list_replace(o, xs)
            return
        self.throw(TypeError, 'object does not support item deletion')

    def throw_native(self, e):
        if isinstance(e, (Raised, Budget, Infeasible, _Return)):
            raise e
        if isinstance(e, RecursionError):
            raise Budget('recursion')
        self.throw(type(e), *[a for a in e.args])

    # conversion -------------------------------------------------------------

    def has_abs(self, v):
        if isinstance(v, AbsVal):
            return True
        if isinstance(v, tuple):
            return any(self.has_abs(x) for x in v)
        if isinstance(v, slice):
            return any(self.has_abs(x) for x in (v.start, v.stop, v.step))
        return False

    def to_native(self, v):
        """Host value of a constant, or raise ValueError."""
        v = self.res(v)
        if isinstance(v, VList):
            return [self.to_native(x) for x in v.items]
        if isinstance(v, tuple):
            return tuple(self.to_native(x) for x in v)
        if isinstance(v, VDict):
            return v.pytype((self.to_native(k), self.to_native(x))
                            for k, x in v.d.values())
        if isinstance(v, VSet):
            return (frozenset if v.frozen else set)(
                self.to_native(x) for x in v.d.values())
        if isinstance(v, VBuiltin) and v.pytype is not None:
            return v.pytype
        if isinstance(v, VObj) and v.payload is not None:
            return self.to_native(v.payload)
        if isinstance(v, AbsVal):
            raise ValueError('not constant')
        return v

    def to_abs(self, v):
        t = type(v)
        if t is list:
            return self.list(self.to_abs(x) for x in v)
        if t is tuple:
            return tuple(self.to_abs(x) for x in v)
        if t is dict or t.__name__ == 'OrderedDict':
            return self.dict([(self.to_abs(k), self.to_abs(x))
                              for k, x in v.items()], t)
        if t is set or t is frozenset:
            try:
                xs = sorted(v)
            except TypeError:
                xs = sorted(v, key=repr)
            return self.set([self.to_abs(x) for x in xs], t is frozenset)
        return v


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
       ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.BitOr: '|',
       ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<',
       ast.RShift: '>>', ast.MatMult: '@'}
DUNDER = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__',
          '//': '__floordiv__', '%': '__mod__', '**': '__pow__',
          '|': '__or__', '&': '__and__', '^': '__xor__', '<<': '__lshift__',
          '>>': '__rshift__', '@': '__matmul__'}
import operator as _op
NATIVE = {'+': _op.add, '-': _op.sub, '*': _op.mul, '/': _op.truediv,
          '//': _op.floordiv, '%': _op.mod, '**': _op.pow, '|': _op.or_,
          '&': _op.and_, '^': _op.xor, '<<': _op.lshift, '>>': _op.rshift,
          '@': _op.matmul}
CMPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=',
        ast.Gt: '>', ast.GtE: '>='}
RICH = {'==': ('__eq__', '__eq__'), '!=': ('__ne__', '__ne__'),
        '<': ('__lt__', '__gt__'), '<=': ('__le__', '__ge__'),
        '>': ('__gt__', '__lt__'), '>=': ('__ge__', '__le__')}
