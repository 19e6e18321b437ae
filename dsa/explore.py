"""Driver: loads the package abstractly, enumerates the partitions of every
obligation and collects the verdicts."""
import ast
import json
import multiprocessing
import os
import sys
import time
import traceback

from .interp import Interp, Run
from .values import *
from . import rx

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, msg, key=None, construct=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.key = key
        self.construct = construct


class Undecided(Exception):
    """The analysis cannot decide this obligation."""


class AnchorGone(Exception):
    """A public name the property is about does not exist any more."""


class Case(object):
    """One obligation.  fn(L) runs once per partition; it raises Violation
    when the partition breaks the property."""
    __slots__ = ('name', 'fn', 'order', 'max_paths', 'relaxed',
                 'max_undecided')

    def __init__(self, name, fn, order='ins', max_paths=4000, relaxed=False,
                 max_undecided=40):
        self.name = name
        self.fn = fn
        self.order = order
        self.max_paths = max_paths
        self.relaxed = relaxed
        self.max_undecided = max_undecided


class Lab(object):
    """What an obligation may use: the abstract package and its inputs."""

    def __init__(self, root, extra='', order='ins'):
        self.root = root
        self.i = i = Interp(root, 'datashape')
        i.order = order
        i.stubs['datashape._version'] = {
            'get_versions': VBuiltin(
                'get_versions', lambda j, a, k: j.dict([('version', '0')]))}
        try:
            self.pkg = i.import_('datashape')
        except Raised as e:
            raise AnalysisError('import of the package raises %s at %s' % (
                self.exc_text(e.exc), i.where()))
        self.helpers = {}
        self.source(BASE_HELPERS)
        if extra:
            self.source(extra)
        self.load_imprecise = list(i.run.imprecise)
        i.run.imprecise = []
        i.loading = False
        self.rid = 0
        self.case = None

    # -- package access

    def source(self, text):
        """Interpret harness source in a module beside the package."""
        i = self.i
        m = VModule('dsa_harness%d' % len(self.helpers), '<harness>', 0)
        tree = ast.parse(text)
        for n in ast.walk(tree):
            n._file = '<harness>'
        from .interp import Env
        i.harness_exec(tree, m)
        self.helpers.update(m.ns)
        return m

    def mod(self, name):
        m = self.i.modules.get(name)
        if m is None:
            try:
                m = self.i.import_(name)
            except Raised:
                raise AnchorGone('module %s' % name)
            m = self.i.modules.get(name, m)
        return m

    def api(self, name, module='datashape'):
        """A public object by name, for instance 'dshape'."""
        if name in self.helpers and module == 'datashape':
            return self.helpers[name]
        m = self.mod(module)
        v = m
        for part in name.split('.'):
            try:
                v = self.i.getattr_(v, part)
            except Raised:
                raise AnchorGone('%s.%s' % (module, name))
        return v

    # -- running

    def outcome(self, f, *a, **k):
        """('ret', value) or ('raise', exception object)."""
        if isinstance(f, str):
            f = self.api(f)
        try:
            return 'ret', self.i.res(self.i.call(f, list(a), k))
        except Raised as e:
            return 'raise', e.exc

    def call(self, f, *a, **k):
        """The result; an exception breaks the obligation."""
        kind, v = self.outcome(f, *a, **k)
        if kind == 'raise':
            raise Violation('%s%s raises %s' % (
                self.fn_name(f), self.i.show(tuple(a)), self.exc_text(v)))
        return v

    def new(self, f, *a, **k):
        """Build an input of an obligation (not what it is about)."""
        kind, v = self.outcome(f, *a, **k)
        if kind == 'raise':
            raise Violation('cannot build %s%s: %s' % (
                self.fn_name(f), self.i.show(tuple(a)), self.exc_text(v)))
        return v

    def fn_name(self, f):
        if isinstance(f, str):
            return f
        return getattr(f, 'qualname', None) or getattr(f, 'name', None) or \
            getattr(f, '__name__', repr(f))

    def attr(self, o, name):
        try:
            return self.i.res(self.i.getattr_(o, name))
        except Raised as e:
            raise Violation('attribute %s of %s raises %s' % (
                name, self.show(o), self.exc_text(e.exc)))

    def meth(self, o, name, *a, **k):
        return self.call(self.attr(o, name), *a, **k)

    def eq(self, a, b):
        return self.i.truth(self.i.compare('==', a, b))

    def ne(self, a, b):
        return self.i.truth(self.i.compare('!=', a, b))

    def truth(self, v):
        return self.i.truth(v)

    def str(self, v):
        try:
            return self.i.res(self.i.str_(v))
        except Raised as e:
            raise Violation('printing %s raises %s' % (
                self.show(v), self.exc_text(e.exc)))

    def repr(self, v):
        try:
            return self.i.res(self.i.repr_(v))
        except Raised as e:
            raise Violation('repr of %s raises %s' % (
                self.show(v), self.exc_text(e.exc)))

    def show(self, v):
        return self.i.show(v)

    def exc_is(self, exc, *classes):
        return any(self.i.exc_matches(exc, c) for c in classes)

    def exc_name(self, exc):
        return cls_name(exc.cls)

    def exc_text(self, exc):
        try:
            a = exc.attrs.get('args', ())
            return '%s(%s)' % (cls_name(exc.cls),
                               ', '.join(self.i.show(x) for x in a)[:300])
        except Exception:
            return cls_name(exc.cls)

    def isinst(self, v, *names):
        return any(self.i.isinstance_(v, self.api(n) if isinstance(n, str)
                                      else n) for n in names)

    def list(self, xs):
        return self.i.list(xs)

    def items(self, v):
        try:
            return self.i.as_list(v)
        except Raised as e:
            raise Violation('iterating %s raises %s' % (
                self.show(v), self.exc_text(e.exc)))

    def dict(self, pairs, pytype=dict):
        return self.i.dict(pairs, pytype)

    # -- abstract inputs

    def int(self, name, lo=None, hi=None):
        return Sym(int, name, lo, hi)

    def text(self, name, lang=None, generic=False):
        s = Sym(str, name, generic=generic)
        s.lang = lang
        return s

    def pick(self, label, options):
        """Partition over the given alternatives."""
        options = list(options)
        return options[self.i.choose(len(options), label)]

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def check(self, cond, msg, key=None):
        if not cond:
            raise Violation(msg, key)

    # -- exploration

    def paths(self, case):
        """Run every partition of one obligation."""
        i = self.i
        prefix = []
        res = dict(name=case.name, paths=0, ok=0, undecided=[], bad=[],
                   infeasible=0, funcs=set(), truncated=False, steps=0)
        self.case = case
        while True:
            self.rid += 1
            run = Run(self.rid, prefix)
            i.run = run
            i.loading = False
            i.order = case.order
            i.relaxed = case.relaxed
            i._handling = None
            i._curfunc = None
            verdict, info = 'ok', None
            try:
                case.fn(self)
            except Infeasible:
                verdict = 'infeasible'
            except Violation as e:
                verdict, info = 'bad', e
            except Raised as e:
                verdict, info = 'bad', Violation(
                    'unexpected %s at %s' % (self.exc_text(e.exc),
                                             e.where or i.where()))
            except (Budget, Undecided) as e:
                verdict, info = 'undecided', str(e)
            except AnchorGone:
                raise
            except RecursionError:
                verdict, info = 'undecided', 'recursion'
            except Exception as e:
                verdict = 'undecided'
                info = 'analyser: %s: %s (%s)' % (
                    type(e).__name__, e,
                    traceback.format_exc().strip().split('\n')[-3].strip())
                if os.environ.get('DSA_DEBUG'):
                    traceback.print_exc()
            finally:
                for undo in reversed(run.trail):
                    undo()
                run.trail = []
            if verdict != 'infeasible' and run.relations and \
                    not i.consistent():
                verdict = 'infeasible'
            if verdict in ('bad', 'ok') and run.imprecise:
                # an alarm on an imprecise trace is not trustworthy, and a
                # pass does not discharge it
                info = '%s but %s' % (
                    verdict if verdict == 'ok' else info.msg,
                    run.imprecise[0])
                verdict = 'undecided'
            res['steps'] += run.steps
            res['funcs'].update(
                '.'.join(f) for f in run.funcs
                if not f[0].startswith('dsa_harness'))
            if verdict == 'infeasible':
                res['infeasible'] += 1
            else:
                res['paths'] += 1
                if verdict == 'ok':
                    res['ok'] += 1
                elif verdict == 'undecided':
                    res['undecided'].append(info)
                else:
                    res['bad'].append(dict(
                        case=case.name, msg=info.msg, key=info.key,
                        construct=info.construct,
                        partition=['%s -> %d/%d at %s' % (l, c, n, w)
                                   for c, n, l, w in run.taken],
                        functions=['.'.join(f) for f in run.funcs
                                   if not f[0].startswith('dsa_harness')]))
                    if len(res['bad']) >= 5:
                        res['truncated'] = True
                        break
            taken = run.taken
            while taken and taken[-1][0] + 1 >= taken[-1][1]:
                taken.pop()
            if not taken:
                break
            if len(res['undecided']) >= case.max_undecided and \
                    not res['bad']:
                res['truncated'] = True
                res['undecided'].append('more than %d undecided partitions' %
                                        case.max_undecided)
                break
            if res['paths'] + res['infeasible'] >= case.max_paths:
                res['truncated'] = True
                res['undecided'].append('more than %d partitions' %
                                        case.max_paths)
                break
            prefix = [c for c, n, l, w in taken]
            prefix[-1] += 1
        i.run = Run(0, ())
        res['funcs'] = sorted(res['funcs'])
        return res


BASE_HELPERS = '''
import datashape
from datashape.coretypes import Mono, Unit, MEASURE

class SkMono(Mono):
    """An arbitrary composite measure, known only by its tag."""
    __slots__ = 'tag',
    cls = MEASURE

    def __init__(self, tag):
        self.tag = tag

    def __str__(self):
        return self.tag


class SkUnit(Unit):
    """An arbitrary scalar measure, known only by its tag."""
    __slots__ = 'tag',
    cls = MEASURE

    def __init__(self, tag):
        self.tag = tag

    def __str__(self):
        return self.tag


class SkMute(Mono):
    """An arbitrary measure whose text and hash do not tell which it is."""
    __slots__ = 'tag',
    cls = MEASURE

    def __init__(self, tag):
        self.tag = tag

    def __str__(self):
        return 'mute'

    def __repr__(self):
        return 'mute'

    def __hash__(self):
        return 7
'''


# ---------------------------------------------------------------- the driver

_LAB = None
_CASES = None
_DEADLINE = None


def _work(n):
    if time.time() > _DEADLINE:
        return n, None
    try:
        return n, _LAB.paths(_CASES[n])
    except AnchorGone as e:
        return n, str(e)


def run_cases(lab, cases, deadline, jobs=None):
    global _LAB, _CASES, _DEADLINE
    _LAB, _CASES, _DEADLINE = lab, cases, deadline
    jobs = jobs or min(8, os.cpu_count() or 1)
    out = [None] * len(cases)
    if jobs == 1 or len(cases) < 4:
        for n in range(len(cases)):
            out[n] = _work(n)[1]
        return out
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(jobs) as pool:
        for n, r in pool.imap_unordered(
                _work, range(len(cases)),
                chunksize=max(1, min(16, len(cases) // (jobs * 4)))):
            out[n] = r
    return out


def histories(cases, tier, seed):
    """Obligations one after the other on the same heap: an answer must not
    depend on what was asked before (memoised results, shared objects)."""
    n = len(cases)
    if n < 2:
        return []
    want = min(n, 4000 if tier == 'thorough' else 400)
    step = max(1, n // want)
    out = []
    for k in range(0, n - 1, step):
        a = (k + seed) % n
        # a neighbour, which differs in little, or one further away
        b = (a + (1, n - 1, 2, 7 * step + 1)[len(out) % 4]) % n
        x, y = cases[a], cases[b]
        if a == b or x.order != y.order or x.relaxed != y.relaxed:
            continue

        def f(L, x=x, y=y):
            x.fn(L)
            y.fn(L)
        out.append(Case('%s, then %s' % (x.name, y.name), f, x.order,
                        min(x.max_paths, y.max_paths,
                            400 if tier == 'thorough' else 60), x.relaxed))
    return out


def known_findings(prop):
    path = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' ')
                if key.startswith('key='):
                    out.append((key[4:], text))
    return out


def main(prop, module, tier, root='/repo'):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = 700 if tier == 'thorough' else 420
    try:
        loads = []
        # iteration order of sets while the package is imported
        for order in getattr(module, 'LOAD_ORDERS', ('ins',)):
            lab = Lab(root, getattr(module, 'HELPERS', ''), order)
            cases = list(module.cases(lab, tier))
            if getattr(module, 'HISTORIES', True):
                cases += histories(cases, tier, seed)
            loads.append((lab, cases))
    except AnchorGone as e:
        print('ERROR property=%s anchor gone: %s' % (prop, e))
        return 2
    except AnalysisError as e:
        print('ERROR property=%s %s' % (prop, e))
        return 2
    results, every = [], []
    for n, (lab, cases) in enumerate(loads):
        results += run_cases(lab, cases, t0 + budget * (n + 1) / len(loads))
        every += cases
    cases = every
    for c, r in zip(cases, results):
        if isinstance(r, str):
            print('ERROR property=%s anchor gone: %s (needed by %s)' % (
                prop, r, c.name))
            return 2
    skipped = [c.name for c, r in zip(cases, results) if r is None]
    results = [r for r in results if r is not None]
    paths = sum(r['paths'] for r in results)
    ok = sum(r['ok'] for r in results)
    und = [(r['name'], u) for r in results for u in r['undecided']]
    discharged = [r['name'] for r in results
                  if r['ok'] and not r['undecided'] and not r['bad']]
    empty = [r['name'] for r in results if not r['paths']]
    funcs = sorted(set(f for r in results for f in r['funcs']))
    known = known_findings(prop)
    bad, seen_known = [], {}
    for r in results:
        for b in r['bad']:
            k = [x for x in known if b['key'] and x[0] == b['key']]
            if k:
                seen_known[k[0][0]] = k[0][1]
            else:
                bad.append(b)
    floor = getattr(module, 'FLOOR', {}).get(tier, 1)
    sample = [c.name for c in cases[::max(1, len(cases) // 12)]][:12]
    ev = dict(
        property=prop, tier=tier, seed=seed, level='other',
        coverage=dict(
            explanation=module.EXPLAIN,
            rule=getattr(module, 'RULE', module.EXPLAIN),
            obligations=len(cases), obligations_discharged=len(discharged),
            partitions=paths, partitions_discharged=ok,
            partitions_undecided=len(und), obligations_not_reached=len(skipped),
            obligations_empty=len(empty),
            functions_analysed=funcs, functions_count=len(funcs),
            steps=sum(r['steps'] for r in results),
            samples=sample, undecided_samples=[list(x) for x in und[:8]],
            known_findings=sorted(seen_known),
            imprecise_at_load=lab.load_imprecise[:5]),
        wall_s=round(time.time() - t0, 2), violations=len(bad))
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, '%s.violations.json' % prop)
    if bad:
        with open(replay, 'w') as f:
            json.dump(bad, f, indent=1, default=str)
    elif os.path.exists(replay):
        os.remove(replay)
    with open(os.path.join(evdir, '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d obligations (%d discharged, %d not reached, %d empty), '
          '%d partitions (%d undecided), %d functions analysed, %.1fs' % (
              prop, tier, len(cases), len(discharged), len(skipped),
              len(empty), paths, len(und), len(funcs), time.time() - t0))
    for k, text in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if und:
        for n, u in und[:int(os.environ.get('DSA_SHOW', '3'))]:
            print('  undecided: %s: %s' % (n, u))
    for n in empty[:3]:
        print('  empty: %s' % n)
    if bad:
        for b in bad[:int(os.environ.get('DSA_SHOW', '6'))]:
            print('  %s: %s%s' % (b['case'], b['msg'], ''.join(
                '\n      ' + p for p in b['partition'][-6:])))
            fs = [f for f in b['functions'] if '<' not in f][-8:]
            if b.get('construct'):
                print('      in %s' % b['construct'])
            else:
                print('      through %s' % ', '.join(fs))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if len(discharged) < floor:
        print('ERROR property=%s only %d of at least %d obligations '
              'discharged' % (prop, len(discharged), floor))
        return 3
    return 0
