"""Bounded exhaustive explorer: runs every case of a check on the real code.

A check module defines
    PID, LEVEL, RULE, ASSUMPTIONS
    cases(tier)   -> list of JSON-able case descriptors: the complete bounded space
    run(case, R)  -> executes one case against the implementation, compares it
                     with the reference model, reports through R
Every case of the space is executed (no sampling).  Each case runs in a forked
worker with its own time limit; nothing is shared between cases except the
imported implementation, so a case replays identically on its own.
"""
from __future__ import print_function
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback
import concurrent.futures as cf
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT = 120
JOBS = int(os.environ.get('MC_JOBS', '8'))


class CaseTimeout(BaseException):
    pass


def digest(obj):
    if not isinstance(obj, (bytes, str)):
        obj = json.dumps(obj, sort_keys=True, default=repr)
    if isinstance(obj, str):
        obj = obj.encode('utf8', 'backslashreplace')
    return hashlib.blake2b(obj, digest_size=8).digest()


class R(object):
    """Result collector of one case."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.fails = []      # (key, message)
        self.notes = {}

    def state(self, obj):
        d = digest(obj)
        new = d not in self.states
        self.states.add(d)
        return new

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def note(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    def fail(self, key, msg=''):
        self.fails.append((str(key), str(msg)[:1500]))

    def check(self, cond, key, msg=''):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)


_MOD = None
_FINDINGS = []


def _init(modname):
    global _MOD, _FINDINGS
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get('MC_SHOW'):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _MOD = importlib.import_module(modname)
    _FINDINGS = load_findings(_MOD.PID)


def _alarm(signum, frame):
    raise CaseTimeout()


def told(err):
    """the traceback; formatting can fail in odd locals of the code under test"""
    try:
        return traceback.format_exc()
    except Exception:
        return ''.join(traceback.format_tb(err.__traceback__)) + repr(err)


def run_case(mod, case):
    r = R()
    limit = getattr(mod, 'CASE_LIMIT', CASE_LIMIT)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        mod.run(case, r)
    except CaseTimeout:
        r.fail('no-termination', 'case did not finish within %d s' % limit)
    except KeyboardInterrupt:
        raise
    except BaseException as err:
        r.fail('exception:%s' % type(err).__name__,
               'unexpected exception from the code under test:\n%s'
               % told(err)[-1400:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return r


def _chunk(job):
    start, chunk = job
    states, trans, traces, notes, fails, alarms = set(), 0, 0, {}, [], 0
    for i, case in enumerate(chunk):
        r = run_case(_MOD, case)
        states |= r.states
        trans += r.transitions
        traces += r.traces
        for k, v in r.notes.items():
            notes[k] = notes.get(k, 0) + v
        if r.fails:
            fails.append((start + i, case, r.fails))
            alarms += any(not is_known(_FINDINGS, case, k) for k, m in r.fails)
            if alarms >= 20 and not os.environ.get('MC_SURVEY'):
                return start, i + 1, states, trans, traces, notes, fails
    return start, len(chunk), states, trans, traces, notes, fails


def load_findings(pid):
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [d for d in data.get('findings', []) if d['property'] == pid]


def is_known(findings, case, key):
    for f in findings:
        if f['key'] != key:
            continue
        cond = f.get('case')
        if cond is None:
            return f
        if isinstance(cond, list):      # the exact cases
            if json.loads(json.dumps(case)) in cond:
                return f
        elif isinstance(case, dict) and all(case.get(k) == v for k, v in cond.items()):
            return f
    return None


def explore(modname, tier, seed):
    t0 = time.time()
    mod = importlib.import_module(modname)
    pid = mod.PID
    findings = load_findings(pid)
    cases = list(mod.cases(tier))
    n = len(cases)
    budget = getattr(mod, 'BUDGET', {}).get(tier, 700 if tier == 'quick' else 7200)
    per = max(1, min(getattr(mod, 'CHUNK', 64), n // (JOBS * 6) or 1))
    jobs = [(i, cases[i:i + per]) for i in range(0, n, per)]
    states, trans, traces, notes, done = set(), 0, 0, {}, 0
    bad, known = [], {}
    capped = False
    died = None
    ctx = mp.get_context('fork')
    ex = cf.ProcessPoolExecutor(max_workers=min(JOBS, max(1, len(jobs))), mp_context=ctx,
                                initializer=_init, initargs=(modname,))
    pend = {}
    it = iter(jobs)
    procs = []
    try:
        stop = False
        while True:
            while not stop and len(pend) < JOBS * 2:
                j = next(it, None)
                if j is None:
                    break
                pend[ex.submit(_chunk, j)] = j
            if not pend:
                break
            procs = list(getattr(ex, '_processes', None) or {}) or procs
            fin, _ = cf.wait(list(pend), timeout=5, return_when=cf.FIRST_COMPLETED)
            for f in fin:
                j = pend.pop(f)
                try:
                    start, k, st, tr, tc, nt, fl = f.result()
                except cf.process.BrokenProcessPool:
                    died = j
                    stop = True
                    break
                done += k
                states |= st
                trans += tr
                traces += tc
                for a, b in nt.items():
                    notes[a] = notes.get(a, 0) + b
                for idx, case, fails in fl:
                    rest = []
                    for key, msg in fails:
                        kf = is_known(findings, case, key)
                        if kf:
                            known.setdefault(kf['key'], [kf, 0])[1] += 1
                        else:
                            rest.append((key, msg))
                    if rest:
                        bad.append((idx, case, rest))
                if len(bad) >= 10 and not os.environ.get('MC_SURVEY'):
                    stop = True
            if died:
                break
            if stop and (bad or died):
                break
            if time.time() - t0 > budget and not stop:
                capped = next(it, None) is not None
                stop = True
    finally:
        if bad or died:
            for p in procs:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            ex.shutdown(wait=False)
        else:
            ex.shutdown(wait=True)
    if died:
        bad.append((died[0], died[1][0], [('worker-died', 'a worker process was killed while '
                    'running the cases starting at this one')]))
    bad.sort(key=lambda b: (len(json.dumps(b[1], default=repr)), b[0]))
    if os.environ.get('MC_SURVEY'):
        agg = {}
        for idx, case, fails in bad:
            for key, msg in fails:
                a = agg.setdefault(key, [0, case, msg])
                a[0] += 1
        for key, (cnt, case, msg) in sorted(agg.items(), key=lambda kv: -kv[1][0]):
            print('%6d %s %s\n       %s' % (cnt, key, json.dumps(case)[:300], msg[-300:].replace('\n', '\n       ')))
    wall = time.time() - t0
    step = max(1, n // 3)
    cov = dict(transitions=trans, traces_validated_against_impl=traces, evaluations=done,
               rule=mod.RULE, samples=[cases[i] for i in range(0, n, step)][:3],
               exhaustive=(not capped and not bad and done == n),
               cases_in_bounded_space=n, capped=capped)
    cov['states' if mod.LEVEL == 'model_checking' else 'distinct_nontrivial'] = len(states)
    if notes:
        cov['measured'] = notes
    ev = dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
              assumptions=mod.ASSUMPTIONS, wall_s=round(wall, 2), violations=len(bad))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    for kf, cnt in known.values():
        print('KNOWN-FINDING: property=%s %s [%d cases]' % (pid, kf['what'], cnt))
    # a listed finding that no longer fails is only reported, never an alarm
    print('%s %s: %d of %d cases, %d states, %d transitions, %d traces compared, %.1f s%s %s'
          % (pid, tier, done, n, len(states), trans, traces, wall,
             ' (time cap reached)' if capped else '', json.dumps(notes) if notes else ''))
    if bad:
        os.makedirs(os.path.join(ROOT, 'out'), exist_ok=True)
        idx, case, fails = bad[0]
        path = os.path.join(ROOT, 'out', '%s-%s.json' % (pid, digest(case).hex()))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, module=modname, case=case, failures=fails), f,
                      indent=1, default=repr)
        for idx, case, fails in bad[:0 if os.environ.get('MC_SURVEY') else 3]:
            print('case', json.dumps(case, default=repr)[:1500])
            for key, msg in fails[:4]:
                print('  FAILED', key, '-', msg)
        print('replay: ./check %s --replay %s' % (pid, path))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if capped and done == 0:
        return 2
    return 0


def replay(modname, path):
    mod = importlib.import_module(modname)
    with open(path) as f:
        data = json.load(f)
    r = run_case(mod, data['case'])
    bad = [(k, m) for k, m in r.fails if not is_known(load_findings(mod.PID), data['case'], k)]
    for key, msg in bad:
        print('FAILED', key, '-', msg)
    if bad:
        print('VIOLATION property=%s replay=%s' % (mod.PID, path))
        return 1
    print('case passes')
    return 0


def main(argv):
    if argv[0] == '--selftest':
        import openmdao.api
        print('engine ready, openmdao from', os.path.dirname(openmdao.api.__file__))
        return 0
    pid = argv[0].upper()
    modname = 'mc.checks.' + pid.lower()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--replay' in argv:
        return replay(modname, argv[argv.index('--replay') + 1])
    try:
        return explore(modname, tier, seed)
    except (ImportError, SyntaxError, NameError, AttributeError):
        # the implementation no longer imports or lost its public interface
        tb = traceback.format_exc()
        print(tb)
        if '/repo/' in tb:
            os.makedirs(os.path.join(ROOT, 'out'), exist_ok=True)
            path = os.path.join(ROOT, 'out', pid + '-import.txt')
            with open(path, 'w') as f:
                f.write(tb)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        return 2


if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
