"""C29: discovery of text."""
import datetime
import re
import warnings
from dateutil.parser import parse
from .. import rx
from ..library import NUMBER, READINGS, dateutil_reading
from ..explore import Case
from ..values import *
from .common import *

EXPLAIN = (
    'Abstract interpretation of discover on unknown texts, tracked as regular '
    'languages.  The texts are divided into the languages the readings '
    'accept: what int and float read, the four words, a number with a time '
    'unit, what strptime reads as a time of day, letters, blanks, and the '
    'rest by number of words.  For the rest dateutil is unknown: it rejects '
    'the text in either of its ways or returns a date and time any part of '
    'which may be zero.  On every path the type is the one of the first '
    'reading that accepts the text, and nothing is raised.  A table of texts '
    'is folded as well.')
FLOOR = {'quick': 150, 'thorough': 150}

UNITS_ = {'ns': ['ns', 'nanosecond', 'nanoseconds'],
          'us': ['us', 'microsecond', 'microseconds'],
          'ms': ['ms', 'millisecond', 'milliseconds'],
          's': ['s', 'second', 'seconds'], 'm': ['m'],
          'h': ['h', 'hour', 'hours'],
          'D': ['D', 'day', 'days', 'date', 'dates'],
          'W': ['W', 'week', 'weeks'], 'M': ['M'],
          'Y': ['Y', 'year', 'years']}
BOOLS = ['True', 'true', 'False', 'false']
TIMES = {'hours, minutes and seconds':
         r'(?:2[0-3]|[0-1]\d|\d):[0-5]?\d:[0-5]?\d',
         'hours, minutes, seconds and a fraction':
         r'(?:2[0-3]|[0-1]\d|\d):[0-5]?\d:[0-5]?\d\.[0-9]{1,6}'}

INT, FLOAT = NUMBER['int'], NUMBER['float']
WORDS = rx.from_regex('|'.join(BOOLS))
TIME = rx.from_regex('|'.join(TIMES.values()))
ALPHA = rx.plus([i for i, c in enumerate(rx.ALPHABET) if c.isalpha()])
BLANK = rx.plus(rx.SPACE)
KNOWN = INT | FLOAT | WORDS | TIME | ALPHA | BLANK
# anything that might be taken for a unit
UNITISH = rx.from_regex('|'.join(
    re.escape(w) for ws in UNITS_.values() for w in ws) +
    '|min|mins|minutes?|months?|secs?|hrs?', re.IGNORECASE)
WORD = rx.from_regex(r'\S+')
GAP = rx.from_regex(r'\s+')
PAD = rx.from_regex(r'\s*')


def cat(*ls):
    out = ls[0]
    for l in ls[1:]:
        out = rx.concat(out, l)
    return out


def texts_left(L, s):
    left = s.lang if s.val is Sym.UNSET else rx.literal(s.val)
    for x in s.neq:
        if isinstance(x, str):
            left = left - rx.literal(x)
    L.assume(not left.empty())
    return left


def judge(L, s, want, what):
    kind, got = L.outcome('discover', s)
    if kind == 'raise':
        L.check(False, 'discovery of %s raises %s' % (what, L.exc_text(got)))
    L.check(L.eq(got, want) and L.eq(want, got) and
            L.i.type_of(L.i.res(got)) is L.i.type_of(L.i.res(want)),
            'text that is %s is discovered as %s' % (what, L.show(got)))


def certain(lang, want, what):
    def f(L):
        s = L.text('text', lang)
        kind, got = L.outcome('discover', s)
        w = want(L)
        shown = what
        left = texts_left(L, s)
        if kind == 'raise':
            L.check(False, 'discovery of text such as %r (%s) raises %s' % (
                left.shortest(), shown, L.exc_text(got)))
        L.check(L.eq(got, w) and L.eq(w, got) and
                L.i.type_of(L.i.res(got)) is L.i.type_of(L.i.res(w)),
                'text such as %r (%s) is discovered as %s' % (
                    left.shortest(), shown, L.show(got)))
    return f


def dated(lang, what):
    """Text only dateutil may read."""
    def f(L):
        s = L.text('text', lang)
        kind, got = L.outcome('discover', s)
        left = texts_left(L, s)
        shown = 'text such as %r (%s)' % (left.shortest(), what)
        try:
            d = dateutil_reading(L.i, s)
        except Raised as e:
            d = None
            shown += ', which dateutil rejects with %s,' % L.exc_text(e.exc)
        if d is None:
            want = 'string'
        else:
            shown += ', which dateutil reads as %s,' % d
            t = d.time()
            want = 'datetime_' if (t.hour or t.minute or t.second or
                                   t.microsecond) else 'date_'
        if kind == 'raise':
            L.check(False, 'discovery of %s raises %s' % (
                shown, L.exc_text(got)))
        w = L.api(want)
        L.check(L.eq(got, w) and L.eq(w, got), '%s is discovered as %s' % (
            shown, L.show(got)))
    return f


def api(name):
    return lambda L: L.api(name)


def delta(u):
    return lambda L: L.new('TimeDelta', u)


FIXED = [
    ('', 'null'), ('0', 'int64'), ('1', 'int64'), ('-17', 'int64'),
    ('+5', 'int64'), (' 12 ', 'int64'), ('007', 'int64'),
    ('99999999999999999999', 'int64'), ('1.0', 'float64'), ('.5', 'float64'),
    ('-1e-3', 'float64'), ('1e400', 'float64'), ('nan', 'float64'),
    ('inf', 'float64'), ('-Infinity', 'float64'), ('True', 'bool_'),
    ('false', 'bool_'), ('TRUE', 'string'), ('12:30:00', 'time_'),
    ('00:00:00', 'time_'), ('1:2:3.5', 'time_'), ('23:59:59.999999', 'time_'),
    ('2014-01-01', 'date_'), ('2014-01-01 12:30', 'datetime_'),
    ('2014-01-01T00:00:01', 'datetime_'), ('2014-01-01 00:00', 'date_'),
    ('2014-01-01 00:00:00.000001', 'datetime_'),
    ('2014-01-01T12:00:00+00:00', 'datetime_'), ('January 1, 2014', 'date_'),
    ('hello', 'string'), ('Monday', 'string'), ('Jan', 'string'),
    (' ', 'string'), ('\t\n', 'string'), ('hello world', 'string'),
    ('12:30:61', 'string'), ('1.5 days', 'string'), ('1.5 D', 'string'), ('2.5 hours', 'datetime_'),
    ('Jan ', 'date_'), ('Monday,', 'date_'), ('12 PM', 'datetime_'),
    (' 10:30', 'datetime_'), ('3 minutes', 'datetime_'), ('20140101', 'int64'), ('one day', 'string'),
    ('1 lightyear', 'string'), ('$5', 'string'), ('5%', 'string'),
    ('1,000', 'string'), ('a\x00b', 'string'), ('None', 'string'),
    ('null', 'string'), ('\u4e2d\u6587', 'string'), ('\u0663', 'int64'),
    ('99999999999999999999-1-1', 'string')]


def fixed(text, want):
    def f(L):
        kind, got = L.outcome('discover', text)
        L.check(kind != 'raise', 'discovery of %r raises %s' % (
            text, L.exc_text(got) if kind == 'raise' else ''))
        if want:
            w = L.api(want)
            L.check(L.eq(got, w) and L.eq(w, got),
                    '%r is discovered as %s' % (text, L.show(got)))
    return f


def reading(text):
    """The type of a text by the documentation."""
    if not text:
        return 'null'
    for f, t in ((int, 'int64'), (float, 'float64')):
        try:
            f(text)
            return t
        except ValueError:
            pass
    if text in BOOLS:
        return 'bool_'
    words = text.split()
    if len(words) == 2:
        u = [u for u, ws in UNITS_.items() if words[1] in ws]
        try:
            n = float(words[0])
            if u and n == int(n) and abs(n) < 2 ** 63:
                return u[0]
        except (ValueError, OverflowError):
            pass
    for p in TIMES.values():
        if re.fullmatch(p, text):
            return 'time_'
    if text.isalpha() or text.isspace():
        return 'string'
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            t = parse(text).time()
    except (ValueError, OverflowError):
        return 'string'
    return 'date_' if t == datetime.time() else 'datetime_'


FRAGMENTS = ['1', '-2.0', '3.5', '1e400', 'nan', 'day', 'hours', 'ns', 'D',
             'ago', 'May', 'monday', '2014-01-01', '12:30:00', '12:30',
             '0:0:0.000', 'AM', 'true', '+', ',']


def grid(first):
    """Texts of one to three fragments."""
    texts = [first]
    for k, x in enumerate(FRAGMENTS):
        texts += [first + x, first + ' ' + x]
        for j in (3, 5, 9):
            y = FRAGMENTS[(j * k + len(first)) % len(FRAGMENTS)]
            texts.append('%s %s  %s' % (first, x, y))
    return texts


def read(texts):
    def f(L):
        for t in texts:
            kind, got = L.outcome('discover', t)
            if kind == 'raise':
                L.check(False, 'discovery of %r raises %s' % (
                    t, L.exc_text(got)))
            w = reading(t)
            want = L.new('TimeDelta', w) if w in UNITS_ else L.api(w)
            L.check(L.eq(got, want) and L.eq(want, got),
                    '%r is discovered as %s' % (t, L.show(got)))
    return f


def unit_text(text, u):
    def f(L):
        judge(L, text, L.new('TimeDelta', u), repr(text))
    return f


def cases(L, tier):
    for text, want in FIXED:
        yield Case('text %r' % text, fixed(text, want))
    yield Case('any integer', certain(INT, api('int64'), 'an integer'))
    yield Case('any float', certain(FLOAT - INT, api('float64'), 'a float'))
    for w in BOOLS:
        yield Case('word %s' % w, fixed(w, 'bool_'))
    yield Case('any of the words', certain(WORDS, api('bool_'), 'a word'))
    for n, p in TIMES.items():
        yield Case(n, certain(rx.from_regex(p), api('time_'), n))
    yield Case('any time', certain(TIME, api('time_'), 'a time of day'))
    yield Case('any letters', certain(ALPHA - WORDS - FLOAT, api('string'),
                                      'letters'))
    yield Case('any blanks', certain(BLANK, api('string'), 'blanks'))
    number = rx.from_regex(r'[+-]?\d{1,15}')
    whole = NUMBER['whole'] & WORD - INT
    for u, sps in UNITS_.items():
        for sp in sps:
            lit = rx.literal(sp)
            for what, l in (('an integer', number),
                            ('an integral number', whole)):
                yield Case('%s and the unit %s' % (what, sp), certain(
                    cat(l, GAP, lit), delta(u), '%s and a unit' % what))
            yield Case('an integer and the unit %s amid blanks' % sp, certain(
                cat(PAD, number, GAP, lit, PAD), delta(u),
                'an integer and a unit'))
            for t in ('1 %s', '-3  %s', ' 2\t%s\n', '1e3 %s', '0 %s',
                      '100.0 %s'):
                yield Case('text %r' % (t % sp), unit_text(t % sp, u))
    for x in FRAGMENTS:
        ts = grid(x)
        for k in range(0, len(ts), 17):
            yield Case('texts from %r' % ts[k], read(ts[k:k + 17]))
    # texts that need dateutil
    frac = NUMBER['fraction'] & WORD
    long_ = (NUMBER['long'] | NUMBER['-long']) & WORD
    nounit = WORD - UNITISH
    nonum = WORD - FLOAT
    rest = [
        ('one word', cat(PAD, WORD, PAD)),
        ('two words, the first no number', cat(PAD, nonum, GAP, WORD, PAD)),
        ('two words, the second no unit', cat(PAD, WORD, GAP, nounit, PAD)),
        ('three words', cat(PAD, WORD, GAP, WORD, GAP, WORD, PAD)),
        ('four words', cat(PAD, WORD, GAP, WORD, GAP, WORD, GAP, WORD, PAD))]
    for sp in ('day', 'hours', 'D', 'm', 'ns', 'Y'):
        lit = rx.literal(sp)
        rest += [('a fraction and the unit %s' % sp,
                  cat(PAD, frac, GAP, lit, PAD)),
                 ('a number out of range and the unit %s' % sp,
                  cat(PAD, long_, GAP, lit, PAD)),
                 ('no gap between number and unit %s' % sp,
                  cat(number, lit))]
    for n, l in rest:
        yield Case(n, dated(l - KNOWN, n))
