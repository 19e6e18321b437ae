"""Abstract inputs shared by the obligations: every kind of datashape with
unknown parameters."""
from ..explore import Violation, Undecided
from ..values import *
from .. import rx

UNITS = ['ns', 'us', 'ms', 's', 'm', 'h', 'D', 'W', 'M', 'Y']
ENCODINGS = ['A', 'U8', 'U16', 'U32']
SCALARS = ['bool_', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16',
           'uint32', 'uint64', 'float16', 'float32', 'float64', 'complex64',
           'complex128', 'char', 'void', 'object_']
SINGLES = ['null', 'date_', 'time_', 'datetime_', 'timedelta_', 'string',
           'json', 'bytes_', 'var']


def fresh_int(L, name, lo=None):
    return L.int(name, lo)


def fresh_text(L, name, lang=None):
    return L.text(name, lang)


def other_int(L, n, name):
    """An integer different from n (above it)."""
    k = L.int(name, 1)
    return L.i.binop('+', n, k)


def other_text(L, s, name, lang=None):
    t = L.text(name, lang)
    if isinstance(s, Sym):
        s.neq.add(t)
        t.neq.add(s)
    else:
        t.neq.add(s)
    return t


def sk(L, name='X', unit=False):
    """A skolem measure: equal to another exactly when the tags are."""
    t = L.text('tag ' + name, IDENT)
    return L.new('SkUnit' if unit else 'SkMono', t)


def sk_other(L, x, name='Y'):
    t = other_text(L, L.attr(x, 'tag'), 'tag ' + name, IDENT)
    return L.i.call(x.cls, [t], {})


def mute(L, name='X'):
    return L.new('SkMute', L.text('tag ' + name, IDENT))


IDENT = rx.from_regex(r'[a-z][a-zA-Z0-9_]*')
UPPER = rx.from_regex(r'[A-Z][a-zA-Z0-9_]*')
NONEMPTY = rx.from_regex(r'(?s:.+)')
ZONE = rx.from_regex(r'[A-Za-z][A-Za-z0-9_/+-]*')


# A slot is a pair of functions: make(L) -> value and
# differ(L, value) -> another value that is certainly different.

class Slot(object):
    def __init__(self, name, make, differ):
        self.name = name
        self.make = make
        self.differ = differ


def int_slot(name, lo=None):
    return Slot(name, lambda L: L.int(name, lo),
                lambda L, v: other_int(L, v, name + ' difference'))


def text_slot(name, lang=None):
    return Slot(name, lambda L: L.text(name, lang),
                lambda L, v: other_text(L, v, 'other ' + name, lang))


def opt_slot(slot):
    """None or a value."""
    def differ(L, v):
        if v is None:
            return slot.make(L)
        if L.i.choose(2, 'other %s is None' % slot.name):
            return None
        return slot.differ(L, v)
    return Slot(slot.name,
                lambda L: None if L.i.choose(2, '%s is None' % slot.name)
                else slot.make(L), differ)


def enum_slot(name, values):
    def differ(L, v):
        return L.pick('other ' + name, [x for x in values if x != v])
    return Slot(name, lambda L: L.pick(name, values), differ)


def sk_slot(name):
    return Slot(name, lambda L: sk(L, name), lambda L, v: sk_other(L, v, name))


class Shape(object):
    """A class of measures or dimensions: how to build one from slots."""

    def __init__(self, name, slots, build, dim=False, measure=True):
        self.name = name
        self.slots = slots
        self.build = build
        self.dim = dim
        self.measure = measure

    def make(self, L):
        vals = [s.make(L) for s in self.slots]
        return vals, self.build(L, *vals)


def ctor(name):
    return lambda L, *a: L.new(name, *a)


def const(name):
    return lambda L: L.api(name)


def seq_shape(name, n, build):
    return Shape(name, [sk_slot('%s %d' % (name, k)) for k in range(n)],
                 build)


def record_build(n):
    def build(L, *v):
        return L.new('Record', L.list([(v[2 * k], v[2 * k + 1])
                                       for k in range(n)]))
    return build


def record_shape(n):
    slots = []
    for k in range(n):
        # distinct names: field k is called k letters and something
        slots += [name_slot(k), sk_slot('type %d' % k)]
    return Shape('Record%d' % n, slots, record_build(n))


def name_slot(k):
    lang = rx.from_regex('[a-z]{%d}[0-9]?' % (k + 1))
    return text_slot('name %d' % k, lang)


def string_build(L, fixlen, enc):
    if fixlen is None:
        return L.new('String', enc)
    return L.new('String', fixlen, enc)


def categorical(L, cats, tp, order):
    return L.new('Categorical', cats, tp, order)


def shapes():
    """Every class of datashape element with unknown parameters."""
    out = [Shape(n, [], const(n)) for n in SCALARS]
    out += [Shape('Null', [], ctor('Null')), Shape('Date', [], ctor('Date')),
            Shape('JSON', [], ctor('JSON')),
            Shape('Bytes', [], ctor('Bytes'))]
    out += [Shape('Time', [opt_slot(text_slot('tz'))],
                  lambda L, tz: L.new('Time', tz)),
            Shape('DateTime', [opt_slot(text_slot('tz'))],
                  lambda L, tz: L.new('DateTime', tz)),
            Shape('TimeDelta', [enum_slot('unit', UNITS)], ctor('TimeDelta')),
            Shape('Units', [text_slot('unit'), sk_slot('tp')],
                  lambda L, u, t: L.new('Units', u, L.new('DataShape', t))),
            Shape('String', [opt_slot(int_slot('fixlen', 0)),
                             enum_slot('encoding', ENCODINGS)], string_build),
            Shape('Decimal', [int_slot('precision'), int_slot('scale')],
                  ctor('Decimal')),
            Shape('Option', [sk_slot('ty')], ctor('Option')),
            Shape('Map', [sk_slot('key'), sk_slot('value')], ctor('Map')),
            Shape('TypeVar', [text_slot('symbol', UPPER)], ctor('TypeVar'),
                  dim=True),
            Shape('Function1', [sk_slot('arg'), sk_slot('result')],
                  ctor('Function')),
            Shape('Function2', [sk_slot('arg 0'), sk_slot('arg 1'),
                                sk_slot('result')], ctor('Function')),
            Shape('Tuple1', [sk_slot('item')],
                  lambda L, a: L.new('Tuple', L.list([a]))),
            Shape('Tuple2', [sk_slot('item 0'), sk_slot('item 1')],
                  lambda L, *a: L.new('Tuple', L.list(a))),
            Shape('Tuple0', [], lambda L: L.new('Tuple', L.list([]))),
            Shape('Record0', [], record_build(0)),
            record_shape(1), record_shape(2),
            Shape('Categorical', [text_slot('category 0'), sk_slot('type'),
                                  enum_slot('ordered', [True, False])],
                  lambda L, c, t, o: categorical(L, L.list([c]), t, o)),
            Shape('Categorical2', [text_slot('category 0'),
                                   text_slot('category 1')],
                  lambda L, c, d: categorical(L, L.list([c, d]),
                                              L.api('string'), False)),
            Shape('CategoricalInt', [int_slot('category 0')],
                  lambda L, c: categorical(L, L.list([c]), L.api('int64'),
                                           False))]
    out += [Shape('Fixed', [int_slot('val', 0)], ctor('Fixed'), dim=True,
                  measure=False),
            Shape('Var', [], ctor('Var'), dim=True, measure=False),
            Shape('Ellipsis', [], ctor('Ellipsis'), dim=True, measure=False),
            Shape('EllipsisT', [text_slot('typevar', UPPER)],
                  lambda L, s: L.new('Ellipsis', L.new('TypeVar', s)),
                  dim=True, measure=False)]
    return out


def dims():
    return [s for s in shapes() if s.dim]


def measures():
    return [s for s in shapes() if s.measure]


def hash_of(L, v):
    try:
        return L.i.hash_(v)
    except Raised as e:
        raise Violation('hash of %s raises %s' % (L.show(v),
                                                  L.exc_text(e.exc)))


def same_hash(L, a, b):
    return L.i.truth(L.i.hash_equal(a, b))
