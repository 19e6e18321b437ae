"""C34: where a failed assertion says the datashapes differ."""
import ast
from ..explore import Case, Violation, Undecided
from ..values import *
from .common import *
from .c18 import (CTX, DIFFS, FLAGS, FN, MANY, MOD, PART, ds, flag_sets, fx,
                  hash_name, part, rec)

EXPLAIN = (
    'Abstract interpretation of assert_dshape_equal on pairs that differ in '
    'one comparable thing (each kind of difference of C18) placed in every '
    'context, two and three deep, at every place of long records, tuples, '
    'functions and lists of dimensions, with other options switched off or '
    'not.  The path in the message, read as attributes and indices of the '
    'two arguments, must lead through the parts around the difference to '
    'two parts that differ; it may be missing only if the arguments '
    'themselves are what differs.')
FLOOR = {'quick': 1500, 'thorough': 3000}
HISTORIES = False


def message(L, exc):
    a = L.attr(exc, 'args')
    if not isinstance(a, tuple) or len(a) != 1:
        raise Violation('the error has the arguments %s' % L.show(a))
    return L.i.res(a[0])


def path_of(L, exc):
    """The accessors in the message, or None."""
    m = message(L, exc)
    if isinstance(m, Tmpl):
        m = ''.join(p if isinstance(p, str) else '\0' for p in m.parts)
    if not isinstance(m, str):
        raise Undecided('unknown message')
    last = m.rpartition('\n')[2]
    if not last.startswith('path: _'):
        return None
    tail = last[len('path: _'):]
    if '\0' in tail:
        raise Undecided('unknown path')
    try:
        tree = ast.parse('_' + tail, mode='eval').body
    except SyntaxError:
        raise Violation('the path %r cannot be read' % tail)
    steps = []
    while not isinstance(tree, ast.Name):
        if isinstance(tree, ast.Attribute):
            steps.append(('attribute', tree.attr))
        elif isinstance(tree, ast.Subscript):
            try:
                steps.append(('index', ast.literal_eval(tree.slice)))
            except ValueError:
                raise Violation('the path %r cannot be read' % tail)
        else:
            raise Violation('the path %r cannot be read' % tail)
        tree = tree.value
    return tail, steps[::-1]


def walk(L, x, path, what):
    tail, steps = path
    out = [x]
    for k, v in steps:
        try:
            x = L.i.res(L.i.getattr_(x, v) if k == 'attribute' else
                        L.i.getitem(x, v))
        except Raised as e:
            raise Violation('%s: the path %r leads nowhere in %s: %s' % (
                what, tail, L.show(out[0]), L.exc_text(e.exc)))
        out.append(x)
    return out


def core(L, x):
    """What stays of a datashape inside another."""
    if isinstance(x, VObj) and L.isinst(x, 'DataShape'):
        ps = L.items(L.attr(x, 'parameters'))
        if len(ps) == 1:
            return L.i.res(ps[0])
    return x


def fails(L, a, b, inner, flags):
    k = dict((f, False) for f in flags)
    kind, v = L.outcome(L.api(FN, MOD), a, b, **k)
    what = '%s against %s%s' % (L.show(a), L.show(b), ''.join(
        ' %s=False' % f for f in flags))
    L.check(kind == 'raise' and L.exc_is(v, AssertionError),
            '%s: %s' % (what, 'passes' if kind == 'ret' else L.exc_text(v)))
    path = path_of(L, v)
    top = any(core(L, x) is core(L, y) for x, y in zip((a, b), inner))
    if path is None:
        L.check(top, '%s: the message names no path' % what)
        return
    xs, ys = walk(L, a, path, what), walk(L, b, path, what)
    L.check(not L.eq(xs[-1], ys[-1]), '%s: the path %r leads to equal '
            'things, %s' % (what, path[0], L.show(xs[-1])))
    if top:
        return
    L.check(any(core(L, x) is core(L, p) and core(L, y) is core(L, q)
                for x, y in zip(xs, ys) for p, q in [inner]),
            '%s: the path %r does not lead through %s' % (
                what, path[0], L.show(inner[0])))


def nested(name, ctxs, flags, swap, outer=False):
    fn, need = DIFFS[name]

    def f(L):
        inner = fn(L)
        if swap:
            inner = inner[::-1]
        a, b = inner
        for c in reversed(ctxs):
            a, b = (L.new('DataShape', CTX[c](L, x)) for x in (a, b))
        if outer:
            a, b = (L.new('DataShape', fx(L, 2), L.new('Var'), x.attrs[
                '_parameters'][0]) for x in (a, b))
        fails(L, a, b, inner, flags)
    return f


def many(kind, n, where, what, flags, turned=False):
    def f(L):
        others = [ds(L, L.api('int32')), ds(L, L.new('Option', sk(L, 'O'))),
                  ds(L, L.new('Var'), L.new('Time', 'CET')),
                  rec(L, ('u', L.new('String', 7, 'U16')))]
        a, b = part(L, what)
        xs = [others[k % 4] for k in range(n)]
        ys = list(xs)
        xs[where], ys[where] = a, b
        x = ds(L, MANY[kind](L, xs))
        if turned:
            fs = [('f%02d' % k, y) for k, y in enumerate(ys)]
            y = ds(L, L.new('Record', L.list(fs[turned:] + fs[:turned])))
        else:
            y = ds(L, MANY[kind](L, ys))
        fails(L, x, y, (a, b), flags)
    return f


def dims(n, where, kind, flags, inside):
    """The dimension itself must be named."""
    def f(L):
        m = sk(L, 'M')
        xs = [fx(L, 2), L.new('Var'), L.new('TypeVar', 'T')]
        p = [xs[k % 3] for k in range(n)]
        q = list(p)
        p[where], q[where] = {
            'value': lambda: (fx(L, 11), fx(L, 12)),
            'kind': lambda: (fx(L, L.int('n', 0)), L.new('Ellipsis')),
            'symbol': lambda: (L.new('TypeVar', 'A'), L.new('TypeVar', 'B')),
        }[kind]()
        a, b = ds(L, *p + [m]), ds(L, *q + [m])
        if inside:
            a, b = (ds(L, CTX[inside](L, x)) for x in (a, b))
        k = dict((x, False) for x in flags)
        r, v = L.outcome(L.api(FN, MOD), a, b, **k)
        what = '%s against %s' % (L.show(a), L.show(b))
        L.check(r == 'raise' and L.exc_is(v, AssertionError),
                '%s passes' % what)
        path = path_of(L, v)
        L.check(path is not None, '%s: the message names no path' % what)
        x, y = (walk(L, z, path, what)[-1] for z in (a, b))
        L.check(x is p[where] and y is q[where],
                '%s: the path %r leads to %s, not to the dimension %s' % (
                    what, path[0], L.show(x), L.show(p[where])))
    return f


NAMES = ['a', 'B', '', ' ', 'a b', "it's", '"', 'x.y', 'x[0]', '\xe9',
         '\\', '0', 'path: _', '\n']


def named(name, what):
    def f(L):
        a, b = part(L, what)
        x, y = (rec(L, ('first', L.api('int32')), (name, d))
                for d in (a, b))
        fails(L, x, y, (a, b), ())
    return f


def cases(L, tier):
    deep = tier == 'thorough'
    for n, (fn, need) in DIFFS.items():
        for fl in flag_sets(need):
            if need and set(need) <= set(fl):
                continue
            for swap in (0, 1):
                yield Case('%s, %s off, %d' % (n, ' '.join(fl), swap),
                           nested(n, (), fl, swap), relaxed=True)
            for c in CTX:
                if deep or len(fl) != 1 or not hash_name(n + c + fl[0]) % 3:
                    yield Case('%s in %s, %s off' % (n, c, ' '.join(fl)),
                               nested(n, (c,), fl, 0), relaxed=True)
        for c in CTX:
            for d in CTX:
                if deep or not hash_name(n + c + d) % 2:
                    yield Case('%s in %s in %s' % (n, d, c),
                               nested(n, (c, d), (), 1), relaxed=True)
            for d, e in (('second field', 'item'), ('result', 'option')):
                yield Case('%s in %s in %s in %s' % (n, e, d, c),
                           nested(n, (c, d, e), (), 0), relaxed=True)
    for kind in MANY:
        for n in (3, 6, 12):
            for w in range(n):
                for what in PART:
                    yield Case('%s of %d, %s at %d' % (kind, n, what, w),
                               many(kind, n, w, what, ()), relaxed=True)
    for n in (3, 7):
        for t in (1, n - 1):
            for w in range(n):
                for what in PART:
                    if what != 'order':
                        yield Case('record of %d turned by %d, %s at %d' % (
                            n, t, what, w), many(
                                'record', n, w, what,
                                ('check_record_order',), t), relaxed=True)
    for n in (1, 2, 3, 5, 8):
        for w in range(n):
            for kind in ('value', 'kind', 'symbol'):
                for fl in ((), tuple(FLAGS[1:])):
                    for inside in (None, 'field', 'second item', 'result'):
                        yield Case('%d dimensions, %s at %d in %s, %s' % (
                            n, kind, w, inside, ' '.join(fl)),
                            dims(n, w, kind, fl, inside), relaxed=True)
    for n in NAMES:
        for what in PART:
            yield Case('field %r, %s' % (n, what), named(n, what),
                       relaxed=True)
