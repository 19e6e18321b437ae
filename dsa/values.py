"""Abstract values of the analyser.

Constants are represented by themselves (str, int, bool, None, float, bytes,
library classes and pure library objects).  Tuples are Python tuples of
abstract values.  Everything else is one of the classes below.
"""


class AbsVal(object):
    __slots__ = ()


class HeapVal(AbsVal):
    """Anything with identity and mutable state."""
    __slots__ = ('birth', 'tag')


class VList(HeapVal):
    __slots__ = ('items', 'pytype')

    def __init__(self, items, birth, pytype=list):
        self.items = items
        self.birth = birth
        self.tag = None
        self.pytype = pytype


class VSet(HeapVal):
    """d maps a lookup key to the element, in insertion order."""
    __slots__ = ('d', 'frozen')

    def __init__(self, birth, frozen=False):
        self.d = {}
        self.frozen = frozen
        self.birth = birth
        self.tag = None


class VDict(HeapVal):
    """d maps a lookup key to (key, value), in insertion order."""
    __slots__ = ('d', 'pytype', 'default')

    def __init__(self, birth, pytype=dict, default=None):
        self.d = {}
        self.pytype = pytype
        self.default = default
        self.birth = birth
        self.tag = None


class OddKey(object):
    """Lookup key of an element whose hash is not a plain constant."""
    __slots__ = ('obj',)

    def __init__(self, obj):
        self.obj = obj


class VObj(HeapVal):
    __slots__ = ('cls', 'attrs', 'payload', 'ident')
    counter = [0]

    def __init__(self, cls, birth):
        self.cls = cls
        self.attrs = {}
        self.payload = None
        self.birth = birth
        self.tag = None
        VObj.counter[0] += 1
        self.ident = VObj.counter[0]

    def __repr__(self):
        return '<%s object #%d>' % (cls_name(self.cls), self.ident)


class VClass(HeapVal):
    __slots__ = ('name', 'bases', 'ns', 'mro', 'meta', 'module', 'subs',
                 'node', 'qualname', 'abc_registry')

    def __init__(self, name, bases, ns, meta, module, birth):
        self.name = name
        self.qualname = name
        self.bases = bases
        self.ns = ns
        self.meta = meta
        self.module = module
        self.subs = []
        self.node = None
        self.birth = birth
        self.tag = None
        self.abc_registry = []
        self.mro = c3(self, bases)

    def __repr__(self):
        return '<class %s>' % self.name


class VModule(HeapVal):
    __slots__ = ('name', 'ns', 'path', 'loaded', 'is_pkg')

    def __init__(self, name, path, birth, is_pkg=False):
        self.name = name
        self.path = path
        self.ns = {}
        self.loaded = False
        self.birth = birth
        self.tag = None
        self.is_pkg = is_pkg

    def __repr__(self):
        return '<module %s>' % self.name


class VFunc(HeapVal):
    __slots__ = ('node', 'env', 'module', 'name', 'qualname', 'defaults',
                 'kwdefaults', 'isgen', 'attrs', 'defcls', 'localnames',
                 'info')

    def __repr__(self):
        return '<function %s>' % self.qualname


class VBuiltin(AbsVal):
    """Model of a library function: fn(interp, args, kwargs)."""
    __slots__ = ('name', 'fn', 'pytype')

    def __init__(self, name, fn, pytype=None):
        self.name = name
        self.fn = fn
        self.pytype = pytype

    def __repr__(self):
        return '<builtin %s>' % self.name


class VBound(AbsVal):
    __slots__ = ('func', 'self_')

    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __repr__(self):
        return '<bound %r of %r>' % (self.func, self.self_)


class VPartial(AbsVal):
    __slots__ = ('func', 'args', 'kwargs', 'attrs')

    def __init__(self, func, args, kwargs):
        self.func = func
        self.args = args
        self.kwargs = kwargs
        self.attrs = {}


class VDescr(AbsVal):
    """property, classmethod, staticmethod, cached_property"""
    __slots__ = ('kind', 'fget', 'fset', 'fdel', 'doc')

    def __init__(self, kind, fget, fset=None, fdel=None):
        self.kind = kind
        self.fget = fget
        self.fset = fset
        self.fdel = fdel


class VSuper(AbsVal):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class VIter(AbsVal):
    """One-shot iterator over a host generator of abstract values."""
    __slots__ = ('gen', 'pytype', 'buf', 'done')

    def __init__(self, gen, pytype=None):
        self.gen = gen
        self.pytype = pytype
        self.buf = []
        self.done = False


class VDispatcher(HeapVal):
    """A multiple dispatch table."""
    __slots__ = ('name', 'funcs', 'module')

    def __init__(self, name, birth):
        self.name = name
        self.funcs = {}     # key of the signature -> (signature, function)
        self.birth = birth
        self.tag = None


class VView(AbsVal):
    """keys/values/items view of a VDict"""
    __slots__ = ('d', 'kind')

    def __init__(self, d, kind):
        self.d = d
        self.kind = kind


class HashTerm(AbsVal):
    """Abstract result of hash(): a term over the hashed contents."""
    __slots__ = ('op', 'args')

    def __init__(self, op, args):
        self.op = op
        self.args = args


class Sym(AbsVal):
    """An unknown scalar.  The constraint fields only ever get narrower
    during a run, and every run creates its own symbols."""
    __slots__ = ('pytype', 'name', 'val', 'lo', 'hi', 'neq', 'preds',
                 'generic', 'attrs', 'term', 'lang')
    UNSET = object()

    def __init__(self, pytype, name, lo=None, hi=None, generic=False,
                 lang=None):
        self.pytype = pytype        # None: nothing is known (top)
        self.name = name
        self.val = Sym.UNSET
        self.lo = lo
        self.hi = hi
        self.neq = set()
        self.preds = {}
        self.generic = generic      # differs from every constant
        self.attrs = {}
        self.term = None            # (op, args) for function terms
        self.lang = lang            # name of the language a string is from

    def __repr__(self):
        if self.val is not Sym.UNSET:
            return '%s=%r' % (self.name, self.val)
        return '<%s %s>' % (self.pytype.__name__ if self.pytype else 'any',
                            self.name)


class Lin(AbsVal):
    """Linear integer expression: sum(coef * sym) + const."""
    __slots__ = ('coefs', 'const')

    def __init__(self, coefs, const):
        self.coefs = coefs      # dict sym -> int (non zero)
        self.const = const

    def __repr__(self):
        return ' + '.join(['%d*%s' % (c, s.name)
                           for s, c in self.coefs.items()] +
                          [str(self.const)])


class Hole(object):
    """A piece of a string template.  fmt: 's' the text of a str symbol,
    'r' its repr, 'd' the decimal text of an int, 't' the text of an opaque
    value."""
    __slots__ = ('val', 'fmt')

    def __init__(self, val, fmt):
        self.val = val
        self.fmt = fmt

    def __repr__(self):
        return '{%s:%s}' % (getattr(self.val, 'name', self.val), self.fmt)


class Tmpl(AbsVal):
    """Abstract string: constant pieces and holes, never all constant."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return 'T' + repr(''.join(p if isinstance(p, str) else repr(p)
                                  for p in self.parts))


def cls_name(c):
    return c.name if isinstance(c, VClass) else getattr(c, '__name__', str(c))


def mro_of(c):
    if isinstance(c, VClass):
        return c.mro
    return list(c.__mro__)


def c3(cls, bases):
    seqs = [list(mro_of(b)) for b in bases] + [list(bases)]
    res = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            break
        for s in seqs:
            cand = s[0]
            if not any(cand is x for t in seqs for x in t[1:]):
                break
        else:
            raise TypeError('inconsistent mro')
        res.append(cand)
        for s in seqs:
            if s[0] is cand:
                del s[0]
    if not any(x is object for x in res):
        res.append(object)
    return res


MISSING = object()
STR_METHODS = frozenset(n for n in dir(str) if not n.startswith('__'))


class Raised(Exception):
    """An abstract Python exception in flight."""
    def __init__(self, exc):
        self.exc = exc
        self.where = None


class Infeasible(Exception):
    """The current partition is empty."""


class Budget(Exception):
    """The analysis gave up on this partition."""


class _Return(Exception):
    def __init__(self, val):
        self.val = val


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class AnalysisError(Exception):
    """The analysis itself cannot proceed (anchor gone, bad source)."""
