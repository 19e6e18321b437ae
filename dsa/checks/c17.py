"""C17: at most one wildcard in each shape, at every depth."""
from itertools import product
from ..explore import Case, Violation
from ..values import *
from .common import *

EXPLAIN = (
    'Abstract interpretation of dshape on text and on parts: every shape of '
    'up to four dimensions (unknown lengths, var, type variables, anonymous '
    'and named wildcards at every combination of positions) is placed in '
    'every context (record field, tuple item, option, map key and value, '
    'function argument and result, units, and contexts inside contexts), '
    'alone and beside shapes with one wildcard.  Two or more wildcards in '
    'one shape must raise TypeError, everything else must be accepted and '
    'keep its wildcards.')
FLOOR = {'quick': 500, 'thorough': 2500}

WILD = 'EN'
TEXT_DIM = {'F': '3', 'V': 'var', 'T': 'T', 'E': '...', 'N': 'A...'}


def dim(L, c, k):
    if c == 'F':
        return L.new('Fixed', L.int('n%d' % k, 0))
    if c == 'V':
        return L.new('Var')
    if c == 'T':
        return L.new('TypeVar', L.text('T%d' % k, UPPER))
    if c == 'E':
        return L.new('Ellipsis')
    return L.new('Ellipsis', L.new('TypeVar', L.text('E%d' % k, UPPER)))


# name -> (object from inner datashape, text from inner text)
CONTEXTS = {
    'field': (lambda L, d: L.new('Record', L.list([('a', d)])),
              lambda t: '{a: %s}' % t),
    'second field': (lambda L, d: L.new('Record', L.list(
        [('a', L.api('int32')), ('b', d)])),
        lambda t: '{a: int32, b: %s}' % t),
    'item': (lambda L, d: L.new('Tuple', L.list([d])),
             lambda t: '(%s)' % t),
    'second item': (lambda L, d: L.new('Tuple', L.list([L.api('int32'), d])),
                    lambda t: '(int32, %s)' % t),
    'option': (lambda L, d: L.new('Option', d), lambda t: 'option[%s]' % t),
    'mark': (lambda L, d: L.new('Option', d), lambda t: '?%s' % t),
    'key': (lambda L, d: L.new('Map', d, L.new('DataShape', L.api('int32'))),
            lambda t: 'map[%s, int32]' % t),
    'value': (lambda L, d: L.new('Map', L.new('DataShape', L.api('int32')),
                                 d),
              lambda t: 'map[int32, %s]' % t),
    'argument': (lambda L, d: L.new('Function', d, L.new(
        'DataShape', L.api('int32'))), lambda t: '(%s) -> int32' % t),
    'second argument': (lambda L, d: L.new(
        'Function', L.new('DataShape', L.api('int32')), d, L.new(
            'DataShape', L.api('int32'))),
        lambda t: '(int32, %s) -> int32' % t),
    'result': (lambda L, d: L.new('Function', L.new(
        'DataShape', L.api('int32')), d), lambda t: '(int32) -> %s' % t),
    'lone result': (lambda L, d: L.new('Function', d),
                    lambda t: '() -> %s' % t),
    'units': (lambda L, d: L.new('Units', 'metre', d), None),
    'below fixed': (lambda L, d: L.new('Tuple', L.list([d])),
                    lambda t: '3 * (%s)' % t),
}
# what stands in front of the context
OUTER = {'': ('', ''), 'fixed': ('F', '3 * '), 'wild': ('E', '... * '),
         'wild fixed': ('EF', '... * 3 * '), 'fixed wild': ('FE', '3 * ... * ')}


def wrap(L, ctxs, ds):
    for c in reversed(ctxs):
        m = CONTEXTS[c][0](L, ds)
        ds = L.new('DataShape', m)
    return ds


def judge(L, bad, out, what):
    kind, v = out
    if bad:
        L.check(kind == 'raise', '%s is accepted: %s' % (what, L.show(v)))
        L.check(L.exc_is(v, TypeError), '%s raises %s' % (what,
                                                          L.exc_text(v)))
    else:
        L.check(kind == 'ret', '%s raises %s' % (
            what, L.exc_text(v) if kind == 'raise' else ''))
        L.check(L.isinst(v, 'Mono'), '%s gives %s' % (what, L.show(v)))


def is_bad(*shapes):
    return any(sum(c in WILD for c in s) > 1 for s in shapes)


def parts(shape, ctxs, outer, how):
    def f(L):
        ds = L.new('DataShape', *[dim(L, c, k) for k, c in enumerate(shape)]
                   + [L.new('DataShape', L.api('int32'))])
        m = CONTEXTS[ctxs[-1]][0](L, ds) if ctxs else None
        ds = wrap(L, ctxs, ds)
        pre = [dim(L, c, 10 + k) for k, c in enumerate(OUTER[outer][0])]
        if how == 'mono':
            for c in reversed(ctxs[:-1]):
                m = CONTEXTS[c][0](L, m)
            given = m
        elif how == 'bare':
            # the parameters are measures, not datashapes
            for c in reversed(ctxs[:-1]):
                m = CONTEXTS[c][0](L, m)
            given = L.list(pre + [m])
        elif how == 'list':
            given = L.list(pre + [ds])
        else:
            given = tuple(pre + [ds])
        bad = is_bad(shape, *([OUTER[outer][0]] if ctxs else [
            OUTER[outer][0] + shape]))
        judge(L, bad, L.outcome('dshape', given),
              'a shape %s in %s' % (shape or 'scalar', ', '.join(ctxs)))
    return f


def text_of(shape, ctxs, outer=''):
    t = ' * '.join([TEXT_DIM[c] for c in shape] + ['int32'])
    for c in reversed(ctxs):
        t = CONTEXTS[c][1](t)
    return OUTER[outer][1] + t


def texts(shape, ctxs, outer):
    def f(L):
        t = text_of(shape, ctxs, outer)
        bad = is_bad(shape, *([OUTER[outer][0]] if ctxs else [
            OUTER[outer][0] + shape]))
        judge(L, bad, L.outcome('dshape', t), repr(t))
    return f


def beside(shapes, how):
    """Several shapes side by side; only one of them may be wrong."""
    def f(L):
        if how.startswith('text'):
            ts = [text_of(s, []) for s in shapes]
            t = {'text record': '{%s}' % ', '.join(
                'f%d: %s' % x for x in enumerate(ts)),
                'text tuple': '(%s)' % ', '.join(ts),
                'text function': '(%s) -> %s' % (', '.join(ts[:-1]), ts[-1]),
                'text map': 'map[%s]' % ', '.join(ts[:2])}[how]
            if how == 'text map' and len(ts) != 2:
                return
            judge(L, is_bad(*shapes), L.outcome('dshape', t), repr(t))
            return
        n = [0]

        def ds(s):
            n[0] += 5
            return L.new('DataShape', *[dim(L, c, n[0] + k) for k, c
                                        in enumerate(s)] + [L.api('int32')])
        xs = [ds(s) for s in shapes]
        if how == 'record':
            m = L.new('Record', L.list([('f%d' % k, x) for k, x
                                        in enumerate(xs)]))
        elif how == 'tuple':
            m = L.new('Tuple', L.list(xs))
        elif how == 'function':
            m = L.new('Function', *xs)
        judge(L, is_bad(*shapes), L.outcome('dshape', L.list([m])),
              '%s of %s' % (how, ', '.join(shapes)))
    return f


def last(form):
    """A wildcard with nothing behind it."""
    def f(L):
        if form[0] == 'text':
            kind, v = L.outcome('dshape', form[1])
            L.check(kind == 'raise', '%r is accepted: %s' % (form[1],
                                                             L.show(v)))
            L.check(L.exc_is(v, TypeError, SyntaxError), '%r raises %s' % (
                form[1], L.exc_text(v)))
        else:
            xs = [dim(L, c, k) for k, c in enumerate(form[1])]
            kind, v = L.outcome('dshape', L.list(xs))
            L.check(kind == 'raise', '%s is accepted' % form[1])
            L.check(L.exc_is(v, TypeError), '%s raises %s' % (
                form[1], L.exc_text(v)))
    return f


def all_shapes(n, kinds='FVTE'):
    for k in range(n + 1):
        for s in product(kinds, repeat=k):
            yield ''.join(s)


def long_cases():
    for n in (5, 7, 9):
        base = ('FVT' * 3)[:n]
        for i in range(n):
            one = base[:i] + 'E' + base[i + 1:]
            yield Case('parts %s' % one, parts(one, [], '', 'list'))
            yield Case('text %s' % one, texts(one, [], ''))
            for j in range(i + 1, n):
                for w in ('EE', 'EN', 'NN'):
                    s = base[:i] + w[0] + base[i + 1:j] + w[1] + base[j + 1:]
                    yield Case('parts %s' % s, parts(s, [], '', 'list'))
                    yield Case('text %s' % s, texts(s, [], ''))
                yield Case('%s in a field' % s, parts(s, ['field'], '',
                                                      'list'))
    for k in (3, 4, 5, 6, 7):
        s = 'N' * k
        yield Case('parts %s' % s, parts(s, [], '', 'list'))
        yield Case('text %s' % s, texts(s, [], ''))
        yield Case('parts %s' % ('E' * k), parts('E' * k, ['item'], '',
                                                 'list'))
    for n in (6, 9, 13):
        for p in range(n):
            for bad in ('EFE', 'NE'):
                ss = ['E'] * n
                ss[p] = bad
                for how in ('record', 'tuple', 'function', 'text record',
                            'text tuple', 'text function'):
                    yield Case('%s of %d, %s at %d' % (how, n, bad, p),
                               beside(ss, how))
        for how in ('record', 'tuple', 'function', 'text record',
                    'text tuple', 'text function'):
            yield Case('%s of %d, all right' % (how, n),
                       beside(['FE'] * n, how))
    names = [c for c in CONTEXTS if c not in ('below fixed', 'mark')]
    for k in range(len(names)):
        for depth in (4, 6, 9):
            ctx = [names[(k + 3 * j) % len(names)] for j in range(depth)]
            for s in ('E', 'EE', 'FNVE'):
                yield Case('%s in %s' % (s, ctx), parts(s, ctx, '', 'list'))
                if 'units' not in ctx:
                    yield Case('text %s in %s' % (s, ctx),
                               texts(s, ctx, ''))


def cases(L, tier):
    for c in long_cases():
        yield c
    deep = tier == 'thorough'
    small = ['', 'E', 'FE', 'EF', 'EE', 'EFE', 'NE', 'EN', 'NN', 'FEF', 'T',
             'EEE', 'FEE', 'EEF', 'TEVE']
    mid = sorted(set(all_shapes(3)) | set(small))
    for s in sorted(set(all_shapes(4 if deep else 3, 'FVTEN'))):
        yield Case('parts %s' % s, parts(s, [], '', 'list'))
        yield Case('text %s' % s, texts(s, [], ''))
    for c in CONTEXTS:
        for s in mid if deep else small:
            for how in ('list', 'tuple', 'bare', 'mono'):
                yield Case('%s in %s as %s' % (s, c, how),
                           parts(s, [c], '', how))
            if CONTEXTS[c][1]:
                yield Case('text %s in %s' % (s, c), texts(s, [c], ''))
        for o in OUTER:
            for s in ('', 'E', 'EF', 'EFE', 'EE', 'TEN'):
                if o:
                    yield Case('%s in %s below %s' % (s, c, o),
                               parts(s, [c], o, 'list'))
                if CONTEXTS[c][1] and c != 'below fixed':
                    yield Case('text %s in %s below %s' % (s, c, o),
                               texts(s, [c], o))
    for a in CONTEXTS:
        for b in CONTEXTS:
            for s in ('E', 'EE', 'FEFE', 'FNE') if deep else ('E', 'NFE'):
                for how in ('list', 'bare'):
                    if how == 'bare' and a == 'units':
                        continue    # units take datashapes only
                    yield Case('%s in %s in %s as %s' % (s, b, a, how),
                               parts(s, [a, b], '', how))
                if CONTEXTS[a][1] and CONTEXTS[b][1] and \
                        (a, b) != ('mark', 'mark'):
                    yield Case('text %s in %s in %s' % (s, b, a),
                               texts(s, [a, b], ''))
            if deep:
                for c in CONTEXTS:
                    for s in ('E', 'EFE'):
                        yield Case('%s in %s in %s in %s' % (s, c, b, a),
                                   parts(s, [a, b, c], '', 'list'))
    for n in (2, 3):
        for ss in product(['', 'E', 'EFE'], repeat=n):
            for how in ('record', 'tuple', 'function', 'text record',
                        'text tuple', 'text function', 'text map'):
                yield Case('%s of %s' % (how, ','.join(ss)), beside(ss, how))
    for t in ('...', '3 * ...', 'A...', '{a: ...}', '{a: 3 * ...}',
              '(3 * ...)', 'option[...]', '?3 * ...', 'map[int32, ...]',
              '(int32) -> ...', '(...) -> int32', '... * ...'):
        yield Case('text %s' % t, last(('text', t)))
    for s in ('E', 'FE', 'N', 'TN', 'EE', 'EFE'):
        yield Case('parts %s alone' % s, last(('parts', s)))
