"""C16: predicates on datashapes."""
from itertools import product
from ..explore import Case, Violation
from ..values import *
from .common import *
from .c17 import CONTEXTS

EXPLAIN = (
    'Abstract interpretation of every predicate on every class of measure '
    'with unknown parameters, with and without an option mark, under zero to '
    'three dimensions of every kind, given as text (where it has a text), as '
    'datashape and as bare measure: the three answers must agree and equal '
    'the answer of the definition.  isfixed, has_var_dim, has_ellipsis and '
    'collect on shapes with a variable dimension or wildcard in every '
    'context (field, item, option, key, value, argument, result, units) up '
    'to two contexts deep (three in the thorough tier).')
FLOOR = {'quick': 700, 'thorough': 1500}

# measures: name -> (text or None, builder, kinds)
NUM = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32',
       'uint64', 'float16', 'float32', 'float64', 'complex64', 'complex128']


def kinds_of(name):
    k = set()
    if name in NUM:
        k |= {'scalar', 'numeric'}
        if name.startswith('float'):
            k.add('real')
    elif name == 'bool_':
        k |= {'scalar', 'boolean'}
    elif name in ('char', 'void', 'object_', 'Null', 'Bytes', 'Time',
                  'Decimal', 'TimeDelta', 'Units'):
        k.add('scalar')
    elif name in ('Date', 'DateTime'):
        k |= {'scalar', 'datelike'}
    elif name.startswith('String') or name.startswith('Categorical'):
        k.add('scalar')
    elif name.startswith('Record'):
        k.add('record')
    return k


# the definition says nothing about these
SILENT = {('TimeDelta', 'numeric'), ('Decimal', 'numeric'),
          ('JSON', 'scalar'), ('TypeVar', 'scalar'), ('Units', 'numeric')}
PRED = {'scalar': 'isscalar', 'record': 'isrecord', 'numeric': 'isnumeric',
        'boolean': 'isboolean', 'datelike': 'isdatelike', 'real': 'isreal'}
DIM = {'F': lambda L, k: L.new('Fixed', L.int('n%d' % k, 0)),
       'V': lambda L, k: L.new('Var'),
       'E': lambda L, k: L.new('Ellipsis'),
       'N': lambda L, k: L.new('Ellipsis', L.new('TypeVar', L.text(
           'S%d' % k, UPPER))),
       'T': lambda L, k: L.new('TypeVar', L.text('T%d' % k, UPPER))}
TEXT_DIM = {'F': '3', 'V': 'var', 'T': 'T', 'E': '...', 'N': 'A...'}

TEXTS = {
    'bool': 'bool_', 'object': 'object_', 'char': 'char', 'void': 'void',
    'null': 'Null', 'date': 'Date', 'time': 'Time', 'datetime': 'DateTime',
    "datetime[tz='UTC']": 'DateTime', "time[tz='UTC']": 'Time',
    'timedelta': 'TimeDelta', "timedelta[unit='s']": 'TimeDelta',
    'string': 'String', "string[10]": 'String', "string['ascii']": 'String',
    "string[7, 'utf16']": 'String', 'bytes': 'Bytes', 'json': 'JSON',
    'decimal[11]': 'Decimal', 'decimal[11, 2]': 'Decimal',
    "units['m']": 'Units', '{a: int32}': 'Record1', '{}': 'Record0',
    '{a: int32, b: string}': 'Record2', '(int32, string)': 'Tuple2',
    '(int32)': 'Tuple1', '()': 'Tuple0', 'map[int32, string]': 'Map',
    '(int32) -> int64': 'Function1', '(int32, bool) -> date': 'Function2',
    "categorical[['a', 'b'], type=string, ordered=True]": 'Categorical',
    'int': 'int32', 'real': 'float64', 
    'complex': 'complex128',}
TEXTS.update((n, n) for n in NUM)


def answer(L, pred, x, what, want):
    v = L.call(PRED.get(pred, pred), x)
    L.check(L.truth(v) == want, '%s(%s) is %s' % (PRED.get(pred, pred), what,
                                                  L.show(v)))


def expected(pred, name, dims):
    if pred in ('scalar', 'record') and dims:
        return False
    return pred in kinds_of(name)


def by_class(shape, pred, dims, option, form):
    def f(L):
        _, m = shape.make(L)
        if option:
            m = L.new('Option', m)
        ds = [DIM[c](L, k) for k, c in enumerate(dims)]
        x = m if form == 'bare' else L.new('DataShape', *ds + [m])
        answer(L, pred, x, L.show(x), expected(pred, shape.name, dims))
    return f


def by_text(text, pred, dims, option):
    def f(L):
        t = ' * '.join([TEXT_DIM[c] for c in dims] +
                       [('?' if option else '') + text])
        want = expected(pred, TEXTS[text], dims)
        if (TEXTS[text], pred) not in SILENT:
            answer(L, pred, t, repr(t), want)
        ds = L.new('dshape', t)
        a = L.truth(L.call(PRED[pred], t))
        b = L.truth(L.call(PRED[pred], ds))
        L.check(a == b, '%s(%r) is %s but %s for the datashape' % (
            PRED[pred], t, a, b))
        if not dims:
            c = L.truth(L.call(PRED[pred], L.attr(ds, 'measure')))
            L.check(a == c, '%s(%r) is %s but %s for the measure' % (
                PRED[pred], t, a, c))
    return f


def same_answer(text, fn, dims, option):
    """Predicates that take whole datashapes."""
    def f(L):
        t = ' * '.join([TEXT_DIM[c] for c in dims] +
                       [('?' if option else '') + text])
        ds = L.new('dshape', t)
        a = L.truth(L.call(fn, t))
        b = L.truth(L.call(fn, ds))
        L.check(a == b, '%s(%r) is %s but %s for the datashape' % (
            fn, t, a, b))
        if not dims and not (fn == 'iscollection' and
                             text[0] == '{'):
            kind, v = L.outcome(fn, L.attr(ds, 'measure'))
            if kind == 'ret':
                L.check(L.truth(v) == a, '%s(%r) is %s but %s for the measure'
                        % (fn, t, a, L.show(v)))
    return f


def tabular(shape, dims, option):
    def f(L):
        _, m = shape.make(L)
        if option:
            m = L.new('Option', m)
        ds = [DIM[c](L, k) for k, c in enumerate(dims)]
        x = L.new('DataShape', *ds + [m])
        answer(L, 'istabular', x, L.show(x),
               len(dims) == 1 and 'record' in kinds_of(shape.name))
    return f


def collection(shape, dims):
    def f(L):
        _, m = shape.make(L)
        ds = [DIM[c](L, k) for k, c in enumerate(dims)]
        x = L.new('DataShape', *ds + [m])
        answer(L, 'iscollection', x, L.show(x), bool(dims))
    return f


def dimension(shape, wrapped):
    def f(L):
        _, m = shape.make(L)
        if wrapped:
            m = L.new('DataShape', m)
        answer(L, 'isdimension', m, L.show(m),
               shape.name in ('Fixed', 'Var', 'Ellipsis', 'EllipsisT'))
    return f


def int_dimension(L):
    answer(L, 'isdimension', L.int('n', 0), 'an integer', True)


def homogeneous(n, same, where, form):
    """n fields or items; all but the last of one type."""
    def f(L):
        m = L.pick('type', ['int32', 'string', 'date_', 'float64'])
        other = L.pick('other', ['int64', 'bool_', 'datetime_'])
        xs = [L.api(m)] * n
        if not same:
            xs[where] = L.api(other)
        if form == 'shaped':
            xs = [L.new('DataShape', L.new('Fixed', L.int('n%d' % k, 0)), x)
                  if k % 2 else x for k, x in enumerate(xs)]
        if form == 'tuple':
            x = L.new('Tuple', L.list(xs))
        else:
            x = L.new('Record', L.list([('f%d' % k, t) for k, t
                                        in enumerate(xs)]))
        if form == 'nested':
            x = L.new('Record', L.list([('a', x), ('b', L.api(m))]))
        elif form == 'dims':
            x = L.new('DataShape', L.new('Var'), L.new('Fixed', 3), x)
        answer(L, 'ishomogeneous', L.new('DataShape', x), L.show(x), same)
    return f


def build(L, dims, ctxs, outer):
    ds = L.new('DataShape', *[DIM[c](L, k) for k, c in enumerate(dims)] +
               [L.api('int32')])
    for c in reversed(ctxs):
        ds = L.new('DataShape', CONTEXTS[c][0](L, ds))
    if outer:
        ds = L.new('DataShape', *[DIM[c](L, 10 + k) for k, c
                                  in enumerate(outer)] + [ds])
    return ds


def text_of(dims, ctxs, outer):
    t = ' * '.join([TEXT_DIM[c] for c in dims] + ['int32'])
    for c in reversed(ctxs):
        if CONTEXTS[c][1] is None:
            return None
        t = CONTEXTS[c][1](t)
    return ''.join(TEXT_DIM[c] + ' * ' for c in outer) + t


def search(dims, ctxs, outer):
    def f(L):
        ds = build(L, dims, ctxs, outer)
        every = dims + outer
        var = any(c in 'VEN' for c in every)
        wild = any(c in 'EN' for c in every)
        what = L.show(ds)
        forms = [ds]
        if len(ds.attrs.get('_parameters', ())) == 1:
            forms.append(L.attr(ds, 'measure'))
        for x in forms:
            answer(L, 'has_var_dim', x, what, var)
            answer(L, 'has_ellipsis', x, what, wild)
        v = L.call('isfixed', ds)
        if var:
            L.check(not L.truth(v), 'isfixed(%s) is %s' % (what, L.show(v)))
        elif 'T' not in every:
            L.check(v is True, 'isfixed(%s) is %s' % (what, L.show(v)))
        collect = L.api('collect', 'datashape.util')
        for n, classes, count in (
                ('variable dimensions', 'V', every.count('V')),
                ('wildcards', 'EN', every.count('E') + every.count('N')),
                ('fixed dimensions', 'F', every.count('F') +
                 sum(c == 'below fixed' for c in ctxs) * 0)):
            cls = L.api({'V': 'Var', 'EN': 'Ellipsis', 'F': 'Fixed'}[classes])
            pred = VBuiltin('isinstance', lambda j, a, k, cls=cls:
                            j.isinstance_(a[0], cls))
            got = L.items(L.call(collect, pred, ds))
            L.check(len(got) == count and all(
                L.isinst(x, cls) for x in got),
                'collect finds %d %s in %s' % (len(got), n, what))
        t = text_of(dims, ctxs, outer)
        if t is not None and ('mark', 'mark') not in zip(ctxs, ctxs[1:]):
            x = L.new('dshape', t)
            v = L.call('isfixed', t)
            w = L.call('isfixed', x)
            L.check(v is w, 'isfixed(%r) is %s but %s for the datashape' % (
                t, L.show(v), L.show(w)))
            if var:
                L.check(not L.truth(v), 'isfixed(%r) is %s' % (t, L.show(v)))
            elif 'T' not in every:
                L.check(v is True, 'isfixed(%r) is %s' % (t, L.show(v)))
            answer(L, 'has_var_dim', x, t, var)
            answer(L, 'has_ellipsis', x, t, wild)
    return f


# many parts, one of them special: name -> (object from parts, text)
MANY = {
    'record': (lambda L, xs: L.new('Record', L.list(
        [('f%d' % k, x) for k, x in enumerate(xs)])),
        lambda ts: '{%s}' % ', '.join('f%d: %s' % x
                                      for x in enumerate(ts))),
    'tuple': (lambda L, xs: L.new('Tuple', L.list(xs)),
              lambda ts: '(%s)' % ', '.join(ts)),
    'function': (lambda L, xs: L.new('Function', *xs),
                 lambda ts: '(%s) -> %s' % (', '.join(ts[:-1]), ts[-1])),
    'arguments': (lambda L, xs: L.new('Function', *(xs + [L.api('null')])),
                  lambda ts: '(%s) -> null' % ', '.join(ts)),
}


def one_of_many(kind, n, where, dims, ctxs):
    """Exactly the part at `where` has the dimensions."""
    def f(L):
        xs = []
        for k in range(n):
            xs.append(L.new('DataShape', *[DIM[c](L, j) for j, c in
                                           enumerate(dims * (k == where))] +
                            [L.api('int32')]))
        m = MANY[kind][0](L, xs)
        t = MANY[kind][1]([''.join(TEXT_DIM[c] + ' * ' for c in
                                   dims * (k == where)) + 'int32'
                           for k in range(n)])
        for c in reversed(ctxs):
            m = CONTEXTS[c][0](L, L.new('DataShape', m))
            t = CONTEXTS[c][1](t)
        ask(L, L.new('DataShape', m), dims, L.show(m))
        ask(L, m, dims, L.show(m))
        ask(L, L.new('dshape', t), dims, t)
    return f


def long_shape(dims):
    def f(L):
        x = L.new('DataShape', *[DIM[c](L, j) for j, c in enumerate(dims)] +
                  [L.api('int32')])
        ask(L, x, dims, L.show(x))
    return f


def ask(L, x, dims, what):
    var = any(c in 'VEN' for c in dims)
    answer(L, 'has_var_dim', x, what, var)
    answer(L, 'has_ellipsis', x, what, any(c in 'EN' for c in dims))
    v = L.call('isfixed', x)
    if var:
        L.check(not L.truth(v), 'isfixed(%s) is %s' % (what, L.show(v)))
    elif 'T' not in dims:
        L.check(v is True, 'isfixed(%s) is %s' % (what, L.show(v)))


def cases(L, tier):
    deep = tier == 'thorough'
    for kind in MANY:
        for n in (3, 7, 12) if not deep else (1, 2, 3, 5, 7, 9, 12, 17):
            for w in range(n):
                for d in ('V', 'E', 'FV') if not deep else (
                        'V', 'E', 'N', 'FV', 'TFV', 'F'):
                    yield Case('%s of %d, %s at %d' % (kind, n, d, w),
                               one_of_many(kind, n, w, d, []))
                yield Case('%s of %d in a field, V at %d' % (kind, n, w),
                           one_of_many(kind, n, w, 'V', ['second field']))
            yield Case('%s of %d, fixed' % (kind, n),
                       one_of_many(kind, n, n - 1, 'FF', []))
    for n in (4, 6, 9):
        yield Case('%d fixed dimensions' % n, long_shape('F' * n))
        for w in range(n):
            for c in 'VEN':
                yield Case('%d dimensions, %s at %d' % (n, c, w),
                           long_shape('F' * w + c + 'F' * (n - 1 - w)))
    for n in (7, 12):
        for form in ('record', 'tuple', 'shaped', 'nested', 'dims'):
            yield Case('homogeneous %d %s' % (n, form),
                       homogeneous(n, True, 0, form))
            for w in range(n):
                yield Case('not homogeneous %d %s %d' % (n, form, w),
                           homogeneous(n, False, w, form))
    for n in (4, 6, 9):
        for name in ('int32', 'Record1', 'Date'):
            for s in measures():
                if s.name == name:
                    for p in PRED:
                        yield Case('%s %d dimensions %s' % (p, n, name),
                                   by_class(s, p, 'FV' * (n // 2) +
                                            'T' * (n % 2), False,
                                            'datashape'))
                    yield Case('tabular %d dimensions %s' % (n, name),
                               tabular(s, 'F' * n, False))
                    yield Case('collection %d dimensions %s' % (n, name),
                               collection(s, 'F' * n))
    dimss = ['', 'F', 'V', 'FV', 'VF', 'E', 'T', 'FFF', 'EF']
    for s in measures():
        for p in PRED:
            if (s.name, p) in SILENT:
                continue
            for o in (False, True):
                if s.name == 'Option' or (o and s.name == 'Null'):
                    continue
                yield Case('%s bare %s%s' % (p, s.name, ' option' * o),
                           by_class(s, p, '', o, 'bare'))
                for d in dimss:
                    yield Case('%s %s %s%s' % (p, d, s.name, ' option' * o),
                               by_class(s, p, d, o, 'datashape'))
        if s.name != 'Option':
            for d in dimss:
                for o in (False, True):
                    if not (o and s.name == 'Null'):
                        yield Case('tabular %s %s%s' % (d, s.name,
                                                        ' option' * o),
                                   tabular(s, d, o))
        for d in ('', 'F', 'V', 'E', 'FT', 'VV', 'N'):
            if not (s.name == 'TypeVar' and not d):
                yield Case('collection %s %s' % (d, s.name), collection(s, d))
    for s in shapes():
        if s.name != 'TypeVar':
            for w in (False, True):
                if not (w and not s.measure):
                    yield Case('dimension %s %s' % (s.name, w),
                               dimension(s, w))
    yield Case('dimension int', int_dimension)
    for t in TEXTS:
        for o in (False, True):
            if t == 'null' and o:
                continue
            for d in ('', 'F', 'VF', 'T', 'E'):
                for p in PRED:
                    yield Case('%s %s %s%s' % (p, d, t, ' option' * o),
                               by_text(t, p, d, o))
                for fn in ('ishomogeneous', 'isfixed', 'istabular',
                           'iscollection'):
                    yield Case('%s %s %s%s' % (fn, d, t, ' option' * o),
                               same_answer(t, fn, d, o))
    for n in (1, 2, 3):
        for form in ('record', 'tuple', 'shaped', 'nested', 'dims'):
            yield Case('homogeneous %d %s' % (n, form),
                       homogeneous(n, True, 0, form))
            if n > 1:
                for w in range(n):
                    yield Case('not homogeneous %d %s %d' % (n, form, w),
                               homogeneous(n, False, w, form))
    inner = ['', 'F', 'V', 'FV', 'VF', 'E', 'FE', 'N', 'NF', 'T', 'TV', 'FFV']
    outers = ['', 'F', 'V', 'E', 'T', 'FV', 'FF']
    for d in inner:
        yield Case('search %s' % d, search(d, [], ''))
    for c in CONTEXTS:
        for d in inner:
            for o in outers if deep or d in ('', 'V', 'E', 'T') else ('', 'F'):
                if o and c == 'below fixed':
                    continue
                yield Case('search %s in %s below %s' % (d, c, o),
                           search(d, [c], o))
        for b in CONTEXTS:
            for d in ('', 'V', 'E') if not deep else ('', 'V', 'N', 'FE', 'T'):
                yield Case('search %s in %s in %s' % (d, b, c),
                           search(d, [c, b], ''))
            if deep:
                for a in CONTEXTS:
                    for d in ('F', 'V', 'FE'):
                        yield Case('search %s in %s in %s in %s' % (
                            d, b, c, a), search(d, [a, c, b], ''))
