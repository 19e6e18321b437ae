"""C21: records keep their fields as given."""
from collections import OrderedDict
from ..explore import Case, Violation
from ..values import *
from .common import *

EXPLAIN = (
    'Abstract interpretation of the record constructor and of bracket '
    'literals on up to four fields with unknown distinct names and skolem '
    'types, in every supported form (lists, tuples, iterators, ordered '
    'mappings, bracket literal); every view of the result is compared with '
    'the given fields, position by position, also when names that are equal '
    'to a text and types given as text, as one-element datashapes or with '
    'dimensions are mixed; for every pair of positions an equal name must '
    'raise ValueError, and every malformed part of a bracket literal at every '
    'position must raise TypeError.')
FLOOR = {'quick': 150, 'thorough': 150}

HELPERS = '''
def generate(fields):
    for name, typ in fields:
        yield name, typ

def mapped(fields):
    return map(tuple, fields)

def zipped(fields):
    return zip([n for n, t in fields], [t for n, t in fields])

def bracket(R, parts):
    if len(parts) == 1:
        return R[parts[0]]
    return R[tuple(parts)]

class Named(object):
    def __init__(self, text, rep):
        self.text = text
        self.rep = rep

    def __str__(self):
        return self.text

    def __repr__(self):
        return self.rep

def bracket_tuple(R, parts):
    return R[tuple(parts)]
'''

FORMS = {
    'list of tuples': lambda L, fs: L.list(fs),
    'list of lists': lambda L, fs: L.list([L.list(f) for f in fs]),
    'tuple': lambda L, fs: tuple(fs),
    'generator': lambda L, fs: L.call('generate', L.list(fs)),
    'iterator': lambda L, fs: L.call('mapped', L.list(fs)),
    'zip': lambda L, fs: L.call('zipped', L.list(fs)),
    'ordered mapping': lambda L, fs: L.dict(fs, OrderedDict),
    'items': lambda L, fs: L.i.call(L.i.getattr_(L.dict(fs), 'items'), [],
                                    {}),
}


def judge(L, r, names, types, what):
    n = len(names)
    fields = L.items(L.attr(r, 'fields'))
    L.check(L.isinst(r, 'Record'), '%s is %s' % (what, L.show(r)))
    L.check(len(fields) == n, '%s has %d fields, not %d' % (
        what, len(fields), n))
    gn, gt = L.items(L.attr(r, 'names')), L.items(L.attr(r, 'types'))
    L.check(len(gn) == n and len(gt) == n, '%s has %d names and %d types' % (
        what, len(gn), len(gt)))
    d = L.attr(r, 'dict')
    L.check(L.i.res(L.i.len_(d)) == n, 'the mapping of %s has %s entries' % (
        what, L.show(L.i.len_(d))))
    for k in range(n):
        f = L.items(fields[k])
        L.check(len(f) == 2, '%s has the field %s' % (what, L.show(f)))
        for x, v in (('field %d' % k, f[0]), ('name %d' % k, gn[k])):
            L.check(L.i.type_of(v) is str, '%s of %s is no text' % (x, what))
            L.check(L.eq(v, names[k]), '%s of %s is called %s, not %s' % (
                x, what, L.show(v), L.show(names[k])))
        for x, v in (('field %d' % k, f[1]), ('type %d' % k, gt[k]),
                     ('mapping entry %d' % k, item(L, d, names[k], what)),
                     ('item %d' % k, item(L, r, names[k], what))):
            L.check(same_type(L, v, types[k]), '%s of %s is %s, not %s' % (
                x, what, L.show(v), L.show(types[k])))


def item(L, d, k, what):
    try:
        return L.i.res(L.i.getitem(d, k))
    except Raised as e:
        raise Violation('looking up %s in %s raises %s' % (
            L.show(k), what, L.exc_text(e.exc)))


def same_type(L, a, b):
    return (L.i.type_of(a) is L.i.type_of(b)) and L.eq(a, b)


def plain(form, n):
    def f(L):
        names = [name_slot(k).make(L) for k in range(n)]
        types = [sk(L, 't%d' % k) for k in range(n)]
        r = L.call('Record', FORMS[form](L, list(zip(names, types))))
        judge(L, r, names, types, 'a record from a %s' % form)
    return f


def arbitrary_names(form, n):
    """Names that may hold anything, but differ."""
    def f(L):
        names = []
        for k in range(n):
            s = L.text('name %d' % k)
            for o in names:
                s.neq.add(o)
                o.neq.add(s)
            names.append(s)
        types = [sk(L, 't%d' % k) for k in range(n)]
        r = L.call('Record', FORMS[form](L, list(zip(names, types))))
        judge(L, r, names, types, 'a record from a %s' % form)
    return f


CONSTANTS = ['a', '', 'two words', 'xy', '0']


def constant_names(form, n):
    def f(L):
        types = [sk(L, 't%d' % k) for k in range(n)]
        r = L.call('Record', FORMS[form](L, list(zip(CONSTANTS, types))))
        judge(L, r, CONSTANTS[:n], types, 'a record from a %s' % form)
    return f


def literal_arbitrary(L):
    n = L.text('name')
    t = sk(L, 't')
    r = L.call('bracket', L.api('Record'), L.list([slice(n, t, None)]))
    judge(L, r, [n], [t], 'a bracket literal')


KINDS = ['plain', 'text', 'wrapped', 'shaped', 'text shaped', 'option']


def typed(L, kind, k):
    """(given type, normalised type)"""
    x = sk(L, 't%d' % k)
    if kind == 'plain':
        return x, x
    if kind == 'text':
        return 'int32', L.api('int32')
    if kind == 'wrapped':
        return L.new('DataShape', x), x
    if kind == 'shaped':
        d = L.new('DataShape', L.new('Fixed', L.int('d', 0)), x)
        return d, d
    if kind == 'text shaped':
        return '3 * int32', L.new('DataShape', L.new('Fixed', 3),
                                  L.api('int32'))
    if kind == 'option':
        o = L.new('Option', x)
        return o, o


def mixed(form, a, b):
    def f(L):
        names = [name_slot(k).make(L) for k in range(2)]
        ts = [typed(L, a, 0), typed(L, b, 1)]
        r = L.call('Record', FORMS[form](
            L, list(zip(names, [t[0] for t in ts]))))
        judge(L, r, names, [t[1] for t in ts],
              'a record of %s and %s types from a %s' % (a, b, form))
    return f


def numbers(form):
    """Names that are no text become text."""
    def f(L):
        t = [sk(L, 't%d' % k) for k in range(2)]
        n = name_slot(1).make(L)
        r = L.call('Record', FORMS[form](L, [(7, t[0]), (n, t[1])]))
        judge(L, r, ['7', n], t, 'a record with a number as a name')
    return f


def unknown_number(L):
    t = sk(L, 't')
    n = L.int('number', 0)
    r = L.call('Record', L.list([(n, t)]))
    judge(L, r, [L.str(n)], [t], 'a record with a number as a name')


def duplicate(form, n, i, j, extra=None):
    def f(L):
        names = [name_slot(k).make(L) for k in range(n)]
        names[j] = names[i]
        if extra:
            names[extra[0]] = names[extra[1]]
        types = [sk(L, 't%d' % k) for k in range(n)]
        if i == 0 and L.i.choose(2, 'equal types'):
            types[j] = types[i]
        kind, v = L.outcome('Record', FORMS[form](L, list(zip(names,
                                                              types))))
        L.check(kind == 'raise', 'a record with equal names at %d and %d is '
                '%s' % (i, j, L.show(v)))
        L.check(L.exc_is(v, ValueError), 'a record with equal names at %d '
                'and %d raises %s' % (i, j, L.exc_text(v)))
    return f


def duplicate_number(L):
    t = [sk(L, 't%d' % k) for k in range(2)]
    ns = L.pick('names', [(1, '1'), ('1', 1), (1, 1)])
    kind, v = L.outcome('Record', L.list([(ns[0], t[0]), (ns[1], t[1])]))
    L.check(kind == 'raise' and L.exc_is(v, ValueError),
            'the names %r and %r are accepted' % ns)


def literal(n, how):
    def f(L):
        names = [name_slot(k).make(L) for k in range(n)]
        types = [sk(L, 't%d' % k) for k in range(n)]
        parts = [slice(a, b, None) for a, b in zip(names, types)]
        R = L.api(L.pick('class', ['Record', 'R']), 'datashape.coretypes')
        r = L.call(how, R, L.list(parts))
        judge(L, r, names, types, 'a bracket literal')
        same = L.call('Record', L.list(list(zip(names, types))))
        L.check(L.eq(r, same) and same_hash(L, hash_of(L, r),
                                            hash_of(L, same)),
                'a bracket literal differs from the record of its fields')
    return f


def literal_kinds(a):
    def f(L):
        n = name_slot(0).make(L)
        t = typed(L, a, 0)
        r = L.call('bracket', L.api('Record'), L.list([slice(n, t[0], None)]))
        judge(L, r, [n], [t[1]], 'a bracket literal of a %s type' % a)
    return f


BAD = {
    'no slice': lambda L, n, t: n,
    'only a type': lambda L, n, t: t,
    'no name': lambda L, n, t: slice(None, t, None),
    'nothing': lambda L, n, t: slice(None, None, None),
    'name is a number': lambda L, n, t: slice(L.int('number'), t, None),
    'name is zero': lambda L, n, t: slice(0, t, None),
    'name is a type': lambda L, n, t: slice(t, t, None),
    'no type': lambda L, n, t: slice(n, None, None),
    'step': lambda L, n, t: slice(n, t, t),
    'step text': lambda L, n, t: slice(n, t, n),
    'step zero': lambda L, n, t: slice(n, t, 0),
    'step without type': lambda L, n, t: slice(n, None, t),
    'pair': lambda L, n, t: (n, t),
}


def malformed(n, pos, bad):
    def f(L):
        parts = []
        for k in range(n):
            a, t = name_slot(k).make(L), sk(L, 't%d' % k)
            parts.append(BAD[bad](L, a, t) if k == pos
                         else slice(a, t, None))
        if n == 1 and bad == 'pair':
            raise Infeasible()
        kind, v = L.outcome('bracket', L.api('Record'), L.list(parts))
        L.check(kind == 'raise', 'a bracket literal with %s at %d is %s' % (
            bad, pos, L.show(v)))
        L.check(L.exc_is(v, TypeError), 'a bracket literal with %s at %d '
                'raises %s' % (bad, pos, L.exc_text(v)))
    return f


def literal_duplicate(n, i, j):
    def f(L):
        names = [name_slot(k).make(L) for k in range(n)]
        names[j] = names[i]
        parts = [slice(a, sk(L, 't%d' % k), None)
                 for k, a in enumerate(names)]
        kind, v = L.outcome('bracket', L.api('Record'), L.list(parts))
        L.check(kind == 'raise' and L.exc_is(v, ValueError),
                'a bracket literal with equal names at %d and %d gives %s' % (
                    i, j, L.show(v)))
    return f


def not_type(form):
    """Something that is no type is rejected."""
    def f(L):
        n = name_slot(0).make(L)
        bad = L.pick('type', [None, 1.5, (), b'int32'])
        kind, v = L.outcome('Record', FORMS[form](L, [(n, bad)]))
        L.check(kind == 'raise' and L.exc_is(v, TypeError),
                'a record with the type %r gives %s' % (bad, L.show(v)))
    return f


MANY = [chr(97 + (7 * k) % 26) + 'xyz'[k % 3] for k in range(24)]
assert len(set(MANY)) == 24 and MANY != sorted(MANY)


def many(form, n, swap=None):
    """Many fields, their names and types in no order; with two names equal
    when asked."""
    def f(L):
        names = MANY[:n]
        types = [sk(L, 't%d' % k) for k in range(n)]
        if swap:
            names[swap[1]] = names[swap[0]]
        if form == 'bracket':
            kind, v = L.outcome('bracket', L.api('Record'), L.list(
                [slice(a, t, None) for a, t in zip(names, types)]))
        else:
            kind, v = L.outcome('Record', FORMS[form](
                L, list(zip(names, types))))
        if swap:
            L.check(kind == 'raise' and L.exc_is(v, ValueError),
                    'a record of %d fields from %s with equal names at %d '
                    'and %d gives %s' % ((n, form) + swap + (L.show(v),)))
            return
        if kind == 'raise':
            raise Violation('a record of %d fields from %s raises %s' % (
                n, form, L.exc_text(v)))
        judge(L, v, names, types, 'a record from a %s' % form)
    return f


OTHER_NAMES = {'float': (1.5, '1.5'), 'whole float': (2.0, '2.0'),
               'bool': (True, 'True'), 'None': (None, 'None'),
               'tuple': ((1, 2), '(1, 2)'), 'negative': (-3, '-3'),
               'bytes': (b'ab', "b'ab'"), 'complex': (1j, '1j')}


def other_name(form, which, pos, n):
    """A name that is no text is replaced by its text."""
    def f(L):
        names = list(MANY[:n])
        types = [sk(L, 't%d' % k) for k in range(n)]
        given = list(names)
        given[pos], names[pos] = OTHER_NAMES[which]
        r = L.call('Record', FORMS[form](L, list(zip(given, types))))
        judge(L, r, names, types, 'a record with a %s as a name' % which)
    return f


def text_object(form, pos):
    """Objects with a text of their own that differs from their repr."""
    def f(L):
        names = list(MANY[:3])
        types = [sk(L, 't%d' % k) for k in range(3)]
        n = L.text('its text')
        r_ = L.text('its repr')
        for o in names:
            n.neq.add(o)
        given = list(names)
        given[pos] = L.call('Named', n, r_)
        names[pos] = n
        r = L.call('Record', FORMS[form](L, list(zip(given, types))))
        judge(L, r, names, types, 'a record with an object as a name')
    return f


def text_object_twice(L):
    n = L.text('its text')
    t = [sk(L, 't%d' % k) for k in range(2)]
    a = L.call('Named', n, L.text('its repr'))
    b = L.call('Named', n, L.text('other repr')) if L.i.choose(
        2, 'both are objects') else n
    kind, v = L.outcome('Record', L.list([(a, t[0]), (b, t[1])]))
    L.check(kind == 'raise' and L.exc_is(v, ValueError),
            'two names with the same text give %s' % L.show(v))


def long_cases():
    for form in list(FORMS) + ['bracket']:
        for n in (5, 7, 9, 12, 16, 24):
            yield Case('%d fields from %s, many' % (n, form), many(form, n))
            if form in ('ordered mapping', 'items'):
                continue
            for i in range(n):
                for j in range(i + 1, n):
                    if i in (0, n // 2) or j in (i + 1, n - 1):
                        yield Case('equal names %d %d of %d from %s, many' % (
                            i, j, n, form), many(form, n, (i, j)))
    for form in FORMS:
        for w in OTHER_NAMES:
            for pos, n in ((0, 1), (1, 3), (2, 3), (8, 9)):
                yield Case('%s as name %d of %d from %s' % (
                    w, pos, n, form), other_name(form, w, pos, n))
        for pos in range(3):
            yield Case('object as name %d from %s' % (pos, form),
                       text_object(form, pos))
    yield Case('two names with the same text', text_object_twice)


def cases(L, tier):
    for form in FORMS:
        for n in range(0, 5):
            yield Case('%d fields from %s' % (n, form), plain(form, n))
            yield Case('%d constant names from %s' % (n, form),
                       constant_names(form, n))
            if form not in ('ordered mapping', 'items') and n < 4:
                yield Case('%d arbitrary names from %s' % (n, form),
                           arbitrary_names(form, n))
        for a in KINDS:
            for b in KINDS:
                yield Case('%s and %s types from %s' % (a, b, form),
                           mixed(form, a, b))
        if form not in ('ordered mapping', 'items'):
            for n in range(2, 5):
                for i in range(n):
                    for j in range(i + 1, n):
                        yield Case('equal names %d %d of %d from %s' % (
                            i, j, n, form), duplicate(form, n, i, j))
            yield Case('three equal names from %s' % form,
                       duplicate(form, 3, 0, 1, (2, 0)))
            yield Case('two pairs of equal names from %s' % form,
                       duplicate(form, 4, 0, 2, (3, 1)))
        yield Case('number from %s' % form, numbers(form))
        yield Case('no type from %s' % form, not_type(form))
    for c in long_cases():
        yield c
    yield Case('unknown number', unknown_number)
    yield Case('number and text', duplicate_number)
    for n in range(1, 5):
        for how in ('bracket', 'bracket_tuple'):
            yield Case('%s of %d' % (how, n), literal(n, how))
        for p in range(n):
            for b in BAD:
                if n < 4 and (n > 1 or b != 'pair'):
                    yield Case('%s at %d of %d' % (b, p, n),
                               malformed(n, p, b))
            for q in range(p + 1, n):
                yield Case('bracket with equal names %d %d of %d' % (
                    p, q, n), literal_duplicate(n, p, q))
    yield Case('bracket of an arbitrary name', literal_arbitrary)
    for k in KINDS:
        yield Case('bracket of %s' % k, literal_kinds(k))
