# -*- coding: utf-8 -*-
"""Shared runtime-monitoring harness: drives the real ngoschema code of /repo with generated
histories, records what was observed, and lets per-property oracles decide.

Verdicts are three-valued: exit 0 (held on everything explored), exit 1 with a VIOLATION line,
exit 2 (inconclusive: the deciding monitor was not reached often enough, or the harness broke).
"""
import collections
import hashlib
import json
import logging
import os
import random
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')

# CPU seconds one generated case may burn before it is called a violation of bounded progress
# (cases normally take milliseconds; CPU time, so a loaded machine does not matter)
CASE_CPU_LIMIT = 150


# seconds a quick check may use for more cases than those it always runs
QUICK_TARGET = float(os.environ.get('VERIF_QUICK_TARGET') or 16)


class Violation(Exception):
    def __init__(self, msg, mechanism=None):
        Exception.__init__(self, msg)
        self.mechanism = mechanism


class Inconclusive(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Workload:
    def __init__(self, fun, name, quick, thorough, min_events):
        self.fun, self.name, self.quick, self.thorough, self.min_events = fun, name, quick, thorough, min_events


class Case:
    """What one generated case sees: its own PRNG, a history log and the monitor's counters."""

    def __init__(self, run, wl, index):
        self.run = run
        self.wl = wl
        self.index = index
        self.rng = random.Random('%s/%s/%s/%s' % (run.seed, run.pid, wl, index))
        self.history = []
        self.signature = None

    def log(self, *event):
        self.history.append(event)
        self.run.counters['events'] += 1

    def hit(self, what, n=1):
        """the deciding monitor looked at something of kind `what`."""
        self.run.counters['monitor:' + what] += n

    def sig(self, *parts):
        """non-trivial case signature used to count distinct cases"""
        self.signature = repr(parts)

    def state(self, *parts):
        """a distinct observed state"""
        self.run.states.add(hashlib.md5(repr(parts).encode('utf-8', 'replace')).digest()[:8])

    def expect(self, cond, msg, *args, **kw):
        self.run.counters['judgements'] += 1
        if not cond:
            raise Violation(msg % args if args else msg, kw.get('mechanism'))

    def equal(self, got, want, msg, *args):
        self.run.counters['judgements'] += 1
        if not same(got, want):
            raise Violation('%s: observed %s, expected %s' % (
                (msg % args if args else msg), short(got), short(want)))

    def raises(self, fun, msg, *args, **kw):
        """fun() must raise an Exception (any, or one of kw['kinds'])"""
        self.run.counters['judgements'] += 1
        kinds = kw.get('kinds', Exception)
        try:
            r = fun()
        except kinds as er:
            return er
        except Exception as er:
            raise Violation('%s: raised %s(%s)' % (msg % args if args else msg, type(er).__name__, short(er)),
                            kw.get('mechanism'))
        raise Violation('%s: returned %s instead of raising' % (msg % args if args else msg, short(r)),
                        kw.get('mechanism'))


def short(v, n=300):
    try:
        s = repr(v) if not isinstance(v, Exception) else str(v)
    except Exception as er:
        s = '<unprintable %s: %s>' % (type(v).__name__, er)
    return s if len(s) <= n else s[:n] + '...'


def same(a, b):
    """equality that does not confuse True/1/1.0/Decimal and does not depend on the library's __eq__"""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.workloads = []
        self.counters = collections.Counter()
        self.distinct = set()
        self.states = set()
        self.samples = []
        self.evaluations = 0
        self.rule = ''
        self.assumptions = []
        self.known_hits = {}
        self.t0 = time.time()
        self.budget = float(os.environ.get('VERIF_BUDGET') or (180 if tier == 'quick' else 720))
        self.level = 'exploration'
        self.extra = {}
        self.required = {}
        self.probes = {}

    # ------------------------------------------------------------- declaration
    def workload(self, name=None, quick=100, thorough=None, min_events=1):
        def deco(f):
            self.workloads.append(Workload(f, name or f.__name__, quick, thorough or quick * 12, min_events))
            return f
        return deco

    def require(self, **kw):
        """minimum monitor counters; below them the run is inconclusive"""
        self.required.update(kw)

    def probe(self, mechanism):
        """register a probe that demonstrates a known finding: returns True while the defect is there"""
        def deco(f):
            self.probes[mechanism] = f
            return f
        return deco

    # ------------------------------------------------------------- execution
    def known(self):
        try:
            with open(os.path.join(ROOT, 'known_findings.json')) as f:
                data = json.load(f)
        except IOError:
            return {}
        return {k['mechanism']: k for k in data.get('known', []) if k['property'] == self.pid}

    def execute(self, only=None):
        known = self.known()
        signal.signal(signal.SIGVTALRM, self._on_alarm)
        for pos, wl in enumerate(self.workloads):
            if only and wl.name != only[0]:
                continue
            now = time.time()
            deadline = now + max(2.0, (self.t0 + self.budget - now) / (len(self.workloads) - pos))
            n = wl.quick if self.tier == 'quick' else wl.thorough
            scale = float(os.environ.get('VERIF_SCALE') or 1)
            n = max(1, int(n * scale))
            # cheap quick checks go on for a while after the cases they always run
            soft = now + QUICK_TARGET / len(self.workloads)
            indices = range(n if self.tier != 'quick' else 3 * n) if not only else [only[1]]
            done = 0
            for i in indices:
                if not only and done >= n and time.time() > soft:
                    break
                if done >= max(5, wl.min_events) and time.time() > deadline:
                    break
                case = Case(self, wl.name, i)
                err = self._one(wl, case, known)
                if err is not None:
                    return self._violation(wl, case, err)
                done += 1
                self.evaluations += 1
                if case.signature is not None:
                    self.distinct.add(hashlib.md5(
                        (wl.name + case.signature).encode('utf-8', 'replace')).digest()[:8])
                    if len([s for s in self.samples if s['workload'] == wl.name]) < 2:
                        self.samples.append({'workload': wl.name, 'index': i,
                                             'case': case.signature[:400],
                                             'history': [short(h, 160) for h in case.history[:12]]})
            self.counters['cases:' + wl.name] += done
            if done == 0 or (done < wl.min_events and not only):
                raise Inconclusive('workload %s: only %i cases within the time budget' % (wl.name, done))
        if not only:
            for k, v in self.required.items():
                if self.counters['monitor:' + k] < v:
                    raise Inconclusive('monitor %s saw %i events, at least %i required' % (
                        k, self.counters['monitor:' + k], v))
        return None

    def _on_alarm(self, *_):
        raise CaseTimeout()

    def _one(self, wl, case, known):
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
        try:
            wl.fun(case)
        except Violation as er:
            if er.mechanism and er.mechanism in known:
                self.known_hits[er.mechanism] = self.known_hits.get(er.mechanism, 0) + 1
                return None
            return (str(er), traceback.format_exc())
        except Inconclusive:
            raise
        except CaseTimeout:
            return ('no progress: one case used more than %i s of CPU time' % CASE_CPU_LIMIT, '')
        except RecursionError as er:
            return ('unbounded recursion in %s' % wl.name, traceback.format_exc()[-3000:])
        except Exception as er:
            tb = traceback.extract_tb(sys.exc_info()[2])
            if any(fr.filename.startswith(REPO + '/') for fr in tb):
                return ('an operation that should succeed raised %s: %s' % (type(er).__name__, short(er)),
                        traceback.format_exc()[-6000:])
            if isinstance(er, (OSError, MemoryError)):
                raise
            # on the unchanged tree no case ends so: what the library gave is not what the oracle can even read
            return ('the observations cannot be judged, the oracle raised %s: %s' % (type(er).__name__, short(er)),
                    traceback.format_exc()[-6000:])
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return None

    def _violation(self, wl, case, err):
        d = os.path.join(ROOT, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.json' % self.pid)
        with open(path, 'w') as f:
            json.dump({'property': self.pid, 'seed': self.seed, 'tier': self.tier, 'workload': wl.name,
                       'index': case.index, 'what': err[0], 'case': case.signature,
                       'history': [short(h, 2000) for h in case.history],
                       'traceback': err[1],
                       'replay_cmd': 'cd /verif && ./run %s --replay %s' % (self.pid, path)}, f, indent=1)
        return path, err[0]

    def evidence(self, violations):
        d = os.path.join(ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        cov = {
            'evaluations': self.evaluations,
            'distinct_nontrivial': len(self.distinct),
            'rule': self.rule,
            'samples': self.samples[:12],
            'judgements': self.counters.get('judgements', 0),
            'history_events': self.counters.get('events', 0),
            'distinct_states': len(self.states),
            'monitors': {k.split(':', 1)[1]: v for k, v in sorted(self.counters.items()) if k.startswith('monitor:')},
            'cases': {k.split(':', 1)[1]: v for k, v in sorted(self.counters.items()) if k.startswith('cases:')},
            'known_findings_seen': self.known_hits,
        }
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'wall_s': round(time.time() - self.t0, 2), 'violations': violations,
              'assumptions': self.assumptions}
        tmp = os.path.join(d, '.%s.%s.tmp' % (self.pid, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(d, self.pid + '.json'))


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    only = None
    seed = int(os.environ.get('VERIF_SEED') or 1)
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            r = json.load(f)
        seed, tier, only = r['seed'], r['tier'], (r['workload'], r['index'])
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(3000)
    run = Run(pid, tier, seed)
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)      # the library logs on stdout; verdict lines go to `out` only
    sys.stdout = os.fdopen(1, 'w', closefd=False)
    logging.disable(logging.CRITICAL)
    code = 2
    try:
        import ngoschema
        if not os.path.abspath(ngoschema.__file__).startswith(REPO + '/'):
            raise Inconclusive('ngoschema imported from %s' % ngoschema.__file__)
        logging.disable(logging.CRITICAL)
        mod = __import__('checks.' + pid.lower(), fromlist=['register'])
        res = None
        try:
            mod.register(run)
        except Inconclusive:
            raise
        except Exception as er:
            # building the subjects of the workloads failed inside the library
            if not any(fr.filename.startswith(REPO + '/') for fr in traceback.extract_tb(sys.exc_info()[2])):
                raise
            run.evaluations += 1
            res = run._violation(Workload(None, '<setup>', 1, 1, 1), Case(run, '<setup>', 0), (
                'setting up the workloads raised %s: %s' % (type(er).__name__, short(er)),
                traceback.format_exc()[-6000:]))
        if res is None:
            res = run.execute(only)
        if res is None:
            known = run.known()
            for m in sorted(known):
                p = run.probes.get(m)
                if p is not None and p():
                    run.known_hits.setdefault(m, 1)
                if m in run.known_hits:
                    out.write('KNOWN-FINDING: property=%s %s\n' % (pid, known[m]['what']))
            code = 0
            if not only:
                run.evidence(0)
            out.write('OK property=%s cases=%i distinct=%i judgements=%i wall=%.1fs\n' % (
                pid, run.evaluations, len(run.distinct), run.counters['judgements'], time.time() - run.t0))
        else:
            code = 1
            if not only:
                run.evidence(1)
            out.write('what: %s\n' % res[1].replace('\n', ' | ')[:1500])
            out.write('VIOLATION property=%s replay=%s\n' % (pid, res[0]))
    except Inconclusive as er:
        out.write('INCONCLUSIVE property=%s %s\n' % (pid, er))
    except BaseException as er:
        out.write('ERROR property=%s %s\n%s\n' % (pid, er, traceback.format_exc()[-4000:]))
    out.flush()
    os._exit(code)
