"""C27: equivalent spellings of encodings and time units."""
import re
from ..explore import Case, Violation
from ..values import *
from .. import rx
from .common import *

EXPLAIN = (
    'Abstract interpretation of the string and timedelta constructors on an '
    'unknown text, tracked as a regular language that every test of the text '
    '(table lookup, slice, strip, comparison) refines: on every path that '
    'returns, the remaining language is contained in the documented spellings '
    'of the one canonical parameter returned; on every path that raises, it '
    'contains no documented spelling and the exception is ValueError.  Each '
    'documented spelling is also followed on its own, and every two '
    'spellings are compared as types.')
FLOOR = {'quick': 100, 'thorough': 100}

ENC = {'A': ['A', 'ascii'], 'U8': ['U8', 'utf-8', 'utf_8', 'utf8'],
       'U16': ['U16', 'utf-16', 'utf_16', 'utf16'],
       'U32': ['U32', 'utf-32', 'utf_32', 'utf32']}
UNIT = {'ns': ['ns', 'nanosecond', 'nanoseconds'],
        'us': ['us', 'microsecond', 'microseconds'],
        'ms': ['ms', 'millisecond', 'milliseconds'],
        's': ['s', 'second', 'seconds'], 'm': ['m'],
        'h': ['h', 'hour', 'hours'], 'D': ['D', 'day', 'days', 'date', 'dates'],
        'W': ['W', 'week', 'weeks'], 'M': ['M'], 'Y': ['Y', 'year', 'years']}
# spellings that may be accepted for a unit without contradiction
EXTRA = {'m': ['minute', 'minutes', 'min'], 'M': ['month', 'months']}


def words(ws, pad=False):
    p = '|'.join(re.escape(w) for w in ws)
    return rx.from_regex(r'\s*(?:%s)\s*' % p if pad else '(?:%s)' % p)


def lang_of(s):
    if isinstance(s, Sym):
        l = s.lang if s.lang is not None else rx.ANY
        out = [x for x in s.neq if isinstance(x, str)]
        return l - words(out) if out else l
    return rx.literal(s)


def spelling(build, slot, sp, canon, what):
    def f(L):
        v = build(L, sp)
        got = L.attr(v, slot)
        L.check(got == canon, '%s %r is normalised to %s, not %r' % (
            what, sp, L.show(got), canon))
    return f


def unknown(build, slot, table, extra, what, empty):
    must = words([w for ws in table.values() for w in ws])

    def f(L):
        s = L.text(what, rx.ANY)
        if not empty:
            s.lang = rx.NONEMPTY
        kind, v = build(L, s, True)
        left = lang_of(L.i.res(s))
        if kind == 'raise':
            L.check(L.exc_is(v, ValueError), 'unknown %s text raises %s' % (
                what, L.exc_text(v)))
            both = left & must
            if not both.empty():
                raise Violation('the documented %s %r is rejected' % (
                    what, both.shortest()))
            return
        got = L.attr(v, slot)
        if got not in table:
            raise Violation('a %s such as %r is normalised to %s' % (
                what, left.shortest(), L.show(got)))
        ok = words(table[got] + extra.get(got, []), pad=True)
        if not left.subset(ok):
            raise Violation('%s %r is accepted as %r' % (
                what, (left - ok).shortest(), got))
    return f


def pair(build, a, b, same, what):
    def f(L):
        x, y = build(L, a), build(L, b)
        L.check(L.eq(x, y) == same and L.eq(y, x) == same and
                L.ne(x, y) != same,
                'types built from the %ss %r and %r are %s' % (
                    what, a, b, 'different' if same else 'equal'))
        if same:
            L.check(same_hash(L, hash_of(L, x), hash_of(L, y)),
                    'types built from the %ss %r and %r hash differently' %
                    (what, a, b))
    return f


def string1(L, e, raw=False):
    return L.outcome('String', e) if raw else L.call('String', e)


def string2(L, e, raw=False):
    n = L.int('fixlen', 0)
    return L.outcome('String', n, e) if raw else L.call('String', n, e)


def string2b(L, e):
    return L.call('String', 8, e)


def delta(L, u, raw=False):
    return L.outcome('TimeDelta', u) if raw else L.call('TimeDelta', u)


def delta_kw(L, u, raw=False):
    return L.outcome('TimeDelta', unit=u) if raw else \
        L.call('TimeDelta', unit=u)


def parsed(fmt):
    def build(L, s):
        return L.attr(L.call('dshape', fmt % s), 'measure')
    return build


def cases(L, tier):
    table = [(string1, 'encoding', ENC, {}, 'encoding', False),
             (string2, 'encoding', ENC, {}, 'encoding', False),
             (delta, 'unit', UNIT, EXTRA, 'time unit', True),
             (delta_kw, 'unit', UNIT, EXTRA, 'time unit', True)]
    for build, slot, tab, extra, what, empty in table:
        yield Case('any %s through %s' % (what, build.__name__),
                   unknown(build, slot, tab, extra, what, empty))
        for canon, sps in tab.items():
            for sp in sps:
                yield Case('%s %s through %s' % (what, sp, build.__name__),
                           spelling(build, slot, sp, canon, what))
    for fmt, slot, tab, what in (('string[%r]', 'encoding', ENC, 'encoding'),
                                 ('string[7, %r]', 'encoding', ENC,
                                  'encoding'),
                                 ('timedelta[%r]', 'unit', UNIT, 'time unit'),
                                 ('timedelta[unit=%r]', 'unit', UNIT,
                                  'time unit')):
        for canon, sps in tab.items():
            for sp in sps:
                yield Case('%s in text' % (fmt % sp),
                           spelling(parsed(fmt), slot, sp, canon, what))
    for build, tab, what in ((string2b, ENC, 'encoding'),
                             (delta, UNIT, 'time unit')):
        flat = [(w, c) for c, ws in tab.items() for w in ws]
        for i, (a, c) in enumerate(flat):
            for b, d in flat[i + 1:]:
                yield Case('%s %s and %s' % (what, a, b),
                           pair(build, a, b, c == d, what))
