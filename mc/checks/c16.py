"""C16: every DOE case runs exactly once and keeps its own results and status."""
from itertools import product, permutations, combinations
import contextlib
import io
import os
import pickle
import shutil
import tempfile
import traceback
import warnings
import numpy as np
from mc.world import Chooser, Comm, FakeMPI, HERE, World, following

PID = 'C16'
LEVEL = 'model_checking'
RULE = ('stateless model checking of the real driver: the queues and processes of multiprocessing are replaced by stand-ins that fork real workers '
        'but leave every choice (which idle worker takes the next case, whose result arrives next) to a controller; all choice sequences are '
        'explored depth first for every number of cases, number of workers and assignment of success / analysis failure / fatal failure / '
        'failure before the run to the cases. The MPI variants run on one thread per rank over a stand-in communicator with all arrival orders '
        'at the master; the serial loop with all fault assignments. Recorded cases, responses and the log of what user code really ran '
        'are compared with the definition')
ASSUMPTIONS = ['worker processes are not killed from outside (exceptions of any kind are explored, the death of a process is not)',
               'after a fatal failure of one case no further cases need to be started (as documented); those that were started are finished and reported',
               'each member of a parallel DOE is one process under MPI']
NOTE = 'all schedules of the stated cases are explored; the evidence counts each as a trace'
LIMIT = 6000      # schedules per case; reaching it is a failure of the check's own bounds
CASE_LIMIT = 600

KINDS = 'osh'     # ok, soft (AnalysisError), hard (other exception)


def cases(tier):
    q = tier == 'quick'
    out = []
    for N in range(0, 4):
        for f in product('oshp', repeat=N):
            out.append(['serial', 1, ''.join(f), 'case'])
            if N and f.count('p') == 0:
                out.append(['again', 1, ''.join(f), 'case'])
    for W in (2, 3):
        for N in range(0, 4):
            for f in product(KINDS, repeat=N):
                out.append(['mp', W, ''.join(f), 'case'])
        for f in product(KINDS, repeat=3):
            if W == 2 and f.count('o') == (2 if q else 1):
                out.append(['mpl', W, ''.join(f), 'case'])
        for f in ('p', 'po', 'op', 'opo', 'poo', 'oop', 'sop', 'pop', 'ppp', 'hpo'):
            out.append(['mp', W, f, 'case'])
    for f in product(KINDS, repeat=4):
        k = sum(c != 'o' for c in f)
        if k <= (1 if q else 4):
            out.append(['mp', 2, ''.join(f), 'case'])
            if not q:
                out.append(['mp', 3, ''.join(f), 'case'])
    for f in ('ooooo', 'sosos') if q else [''.join(f) for f in product('os', repeat=5)]:
        out.append(['mp', 2, f, 'case'])
    for kind in ('full', 'uniform', 'lhc'):
        for W in (2, 3):
            out.append(['mp', W, 'ooo', kind])
            out.append(['mp', W, 'oso', kind])
    for W in (2, 3, 4):
        for N in range(0, 5):
            for f in product(KINDS, repeat=N):
                k = sum(c != 'o' for c in f)
                if N == 4 and k > (1 if q else 4):
                    continue
                out.append(['lb', W, ''.join(f), 'case'])
                if W < 4 and N < 4:
                    out.append(['rv', W, ''.join(f), 'case'])
    for W in (2, 3):
        for N in range(0, 5):
            for f in product(KINDS, repeat=N):
                out.append(['par', W, ''.join(f), 'case'])
    for kind in ('full', 'lhc'):
        for W in (2, 3):
            out.append(['par', W, 'ooo', kind])
            out.append(['lb', W, 'ooo', kind])
    return out


def run(case, R):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()):
            go(case, R)


class Never(Exception):
    """nothing can happen any more although something is waited for"""


# ------------------------------------------------------------------ the experiment
def plan(faults):
    """inputs of each case; the first number tells the cases apart"""
    return [(k + 1., np.array([.5 * k, -k])) for k in range(len(faults))]


def outcome(x, a):
    return 2. * x + 1., a * x + np.array([0., 1.])


def make(faults, kind, W, lb, log, comm=None):
    from openmdao.api import (Problem, Group, IndepVarComp, Component, CaseDriver, FullFactorialDriver, UniformDriver, LatinHypercubeDriver,
                              AnalysisError, BaseRecorder)

    class C(Component):
        def __init__(self):
            super(C, self).__init__()
            self.add_param('x', 0.)
            self.add_param('a', np.zeros(2))
            self.add_output('f', 0.)
            self.add_output('g', np.zeros(2))
            self.add_output('label', '', pass_by_obj=True)

        def solve_nonlinear(self, p, u, r):
            x = float(p['x'])
            log(x, np.array(p['a']))
            k = which(x)
            f = faults[k] if k is not None else 'o'
            if f == 's':
                u['label'] = 'broken'
                raise AnalysisError('soft failure of case %r' % x)
            if f == 'h':
                raise ValueError('hard failure of case %r' % x)
            u['f'], u['g'] = outcome(x, p['a'])
            u['label'] = 'case %r' % x

    def which(x):
        if kind == 'case':
            return int(round(x)) - 1
        # the generated ones are told apart by a third of the range of x each
        return min(int(x * 3. / 6.), 2) if kind == 'lhc' else int(round(x / 3.)) if kind == 'full' else 0

    class Rec(BaseRecorder):
        def __init__(self):
            super(Rec, self).__init__()
            self.got = []
            self._parallel = False
            self.options['record_params'] = True
            self.options['record_resids'] = False
            self.options['record_metadata'] = False

        def startup(self, group):
            super(Rec, self).startup(group)

        def record_iteration(self, params, unknowns, resids, metadata):
            self.got.append((dict((k, np.array(unknowns[k]) if k != 'label' else unknowns[k]) for k in ('x', 'a', 'f', 'g', 'label')),
                             metadata['success'], metadata['msg'], tuple(map(str, metadata['coord']))))
    kw = dict(num_par_doe=W, load_balance=lb)
    if kind == 'case':
        cs = []
        for (x, a), f in zip(plan(faults), faults):
            cs.append([('x', x), ('a', a if f != 'p' else np.zeros(5))])
        drv = CaseDriver(cases=cs, **kw)
    elif kind == 'full':
        drv = FullFactorialDriver(num_levels=3, **kw)
    elif kind == 'uniform':
        drv = UniformDriver(num_samples=3, seed=3, **kw)
    else:
        drv = LatinHypercubeDriver(num_samples=3, seed=3, **kw)
    prob = Problem(root=Group(), driver=drv) if comm is None else Problem(root=Group(), driver=drv, comm=comm)
    prob.root.add('ix', IndepVarComp('x', 0.), promotes=['*'])
    prob.root.add('ia', IndepVarComp('a', np.zeros(2)), promotes=['*'])
    prob.root.add('c', C(), promotes=['*'])
    prob.root.set_order(['ix', 'ia', 'c'])
    drv.add_desvar('x', lower=0., upper=6.)
    if kind == 'case':
        drv.add_desvar('a', lower=-9., upper=9.)
    drv.add_response(['x', 'a', 'f', 'g', 'label'])
    rec = Rec()
    drv.add_recorder(rec)
    return prob, rec


def responses(prob, how='get_responses'):
    out = []
    for r, success, msg in getattr(prob.driver, how)():
        d = dict(r)
        out.append((d, success, msg))
    return out


def judge(R, tag, faults, kind, ran, got, printed, started_all, coords=None):
    """ran: the inputs user code really was called with; got: what was returned or recorded"""
    n = len(faults)
    xs = [x for x, a in ran]
    R.check(len(set(xs)) == len(xs), tag + ':ran-twice', lambda: 'ran %s' % xs)
    seen = []
    for d, success, msg in got:
        x = float(d['x'])
        seen.append(x)
        mine = [a for y, a in ran if y == x]
        if not R.check(len(mine) == 1, tag + ':case-that-never-ran', lambda: '%s, ran %s' % (d, ran)):
            continue
        R.check(np.array_equal(np.ravel(d['a']), mine[0]), tag + ':inputs-mixed-up', lambda: '%s instead of %s' % (d, mine[0]))
        f = 'o'
        if kind == 'case':
            f = faults[int(round(x)) - 1]
            R.check(np.array_equal(np.ravel(d['a']), plan(faults)[int(round(x)) - 1][1]), tag + ':wrong-inputs', lambda: str(d))
        elif 's' in faults:
            f = 's' if success == 0 else 'o'
        if f == 'o':
            wf, wg = outcome(x, mine[0])
            R.check(np.array_equal(d['f'], wf) and np.array_equal(np.ravel(d['g']), wg) and d['label'] == 'case %r' % x, tag + ':outputs-of-another-case', lambda: '%s' % d)
            R.check(success == 1 and not msg, tag + ':good-case-marked-failed', lambda: '%s %s %s' % (d, success, msg))
        elif f == 's':
            R.check(success == 0 and 'soft failure of case %r' % x in msg, tag + ':failure-not-reported', lambda: '%s %s %r' % (d, success, msg))
        else:
            R.check(success == 0 and 'failure' in msg, tag + ':fatal-failure-recorded-as-good', lambda: '%s %s %r' % (d, success, msg))
    R.check(len(set(seen)) == len(seen), tag + ':returned-twice', lambda: str(seen))
    hard = [k for k in range(n) if faults[k] in 'hp']
    if kind == 'case':
        for x in xs:
            k = int(round(x)) - 1
            if faults[k] in 'os':
                R.check(x in seen, tag + ':result-lost', lambda: 'case %s ran, returned are %s' % (x, seen))
            elif faults[k] == 'h':
                R.check(x in seen or 'hard failure of case %r' % x in printed, tag + ':fatal-failure-hidden', lambda: 'case %s: %r' % (x, printed[-300:]))
    if not hard or started_all:
        want = n - len([k for k in hard if faults[k] == 'p'])
        R.check(len(xs) == want, tag + ':not-all-cases-ran', lambda: 'ran %s of %d' % (xs, want))
        if not hard:
            R.check(len(seen) == n, tag + ':not-all-cases-returned', lambda: 'returned %s of %d' % (seen, n))
    elif 'p' in faults and 'h' not in faults:
        R.check('broadcast' in printed or 'shape' in printed or 'Traceback' in printed or any(not s for d, s, m in got), tag + ':fatal-failure-hidden',
                lambda: repr(printed[-300:]))
    if coords is not None:
        R.check(len(set(coords)) == len(coords), tag + ':coordinates-repeat', lambda: str(coords))


def go(case, R):
    how, W, faults, kind = case
    tmp = tempfile.mkdtemp(prefix='c16_')
    try:
        if how == 'again':
            again(R, faults)
        elif how == 'serial':
            serial(R, faults, kind)
        else:
            path, count = [], 0
            while path is not None:
                count += 1
                if count > LIMIT:
                    R.note('cut-off')
                    break
                choose = Chooser(path)
                if how in ('mp', 'mpl'):
                    multiproc(R, W, faults, kind, choose, tmp, how == 'mpl')
                else:
                    ranks(R, how, W, faults, kind, choose)
                R.trace()
                R.step(len(choose.taken) + 1)
                R.state((how, W, faults, kind, tuple(choose.taken)))
                if R.fails:
                    R.note('schedule %s' % (choose.taken,))
                    break
                path = following(choose.taken)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def serial(R, faults, kind):
    ran = []
    prob, rec = make(faults, kind, 1, False, lambda x, a: ran.append((x, a)))
    prob.setup(check=False)
    first = min([k for k in range(len(faults)) if faults[k] in 'hp'] or [len(faults)])
    err = None
    try:
        prob.run()
    except Exception as e:
        err = e
    if first < len(faults):
        if faults[first] == 'h':
            R.check(isinstance(err, ValueError) and 'hard failure of case %r' % (first + 1.) in str(err), 'serial:error-lost', lambda: repr(err))
        else:
            R.check(err is not None, 'serial:error-lost', lambda: repr(err))
    else:
        R.check(err is None, 'serial:raised', lambda: repr(err))
    R.check([x for x, a in ran] == [k + 1. for k in range(len(faults)) if k < first or k == first and faults[k] == 'h'], 'serial:order', lambda: str(ran))
    got = responses(prob)
    judge(R, 'serial', faults, kind, ran, got, str(err), False)
    R.check(len(rec.got) == len(got) == first, 'serial:recorded', lambda: '%s %s' % (rec.got, got))
    R.trace()
    R.step(len(ran))
    R.state(('serial', faults))


def again(R, faults):
    """every run and every setup starts its own list of responses"""
    for seq in (['run', 'run'], ['run', 'setup', 'run'], ['run', 'run', 'setup', 'run', 'run']):
        ran = []
        prob, rec = make(faults, 'case', 1, False, lambda x, a: ran.append((x, a)))
        prob.setup(check=False)
        for op in seq:
            if op == 'setup':
                prob.setup(check=False)
                continue
            del ran[:]
            try:
                prob.run()
            except ValueError:
                pass
            first = min([k for k in range(len(faults)) if faults[k] == 'h'] or [len(faults)])
            R.check([x for x, a in ran] == [k + 1. for k in range(len(faults)) if k <= first], 'again:order', lambda: str(ran))
            for _ in range(2):
                got = responses(prob)
                judge(R, 'again', faults, 'case', ran, got, 'hard failure of case %r' % (first + 1.), False)
                R.check([float(d['x']) for d, s, m in got] == [k + 1. for k in range(first)], 'again:responses', lambda: '%s: %s' % (seq, got))
            R.step()
        R.trace()
    R.state(('again', faults))


# ------------------------------------------------------------------ multiprocessing under control
class Control(object):
    def __init__(self, choose):
        self.choose = choose
        self.queues = []
        self.workers = []
        self.child = None

    # -- used by the stand-ins in the main process
    def pump(self, done):
        """lets workers go on until done() is true"""
        while not done():
            for w in self.workers:
                w.advance()
            acts = []
            fresh = False
            for w in self.workers:
                if w.state == 'get' and w.queue.items:
                    if not w.used:
                        if fresh:
                            continue        # one that has done nothing yet is as good as the other
                        fresh = True
                    acts.append(('give', w))
                if w.puts:
                    acts.append(('deliver', w))
            gives = [a for a in acts if a[0] == 'give' and isinstance(a[1].queue.items[0], str)]
            if gives:
                acts = gives[:1]            # nobody cares who is told first to stop
            if not acts:
                if done():
                    return
                raise Never()
            what, w = acts[self.choose(len(acts)) if len(acts) > 1 else 0]
            if what == 'give':
                w.used = True
                w.reply(w.queue.items.pop(0))
            else:
                q, obj = w.puts.pop(0)
                q.items.append(obj)


class Queue(object):
    def __init__(self, *args, **kw):
        self.items = []
        self.index = len(CTL.queues)
        CTL.queues.append(self)

    def put(self, obj, *args, **kw):
        if CTL.child is not None:
            CTL.child.send(('put', self.index, obj))
        else:
            self.items.append(pickle.loads(pickle.dumps(obj)))

    def get(self, *args, **kw):
        if CTL.child is not None:
            CTL.child.send(('get', self.index, None))
            return CTL.child.receive()
        CTL.pump(lambda: self.items)
        return self.items.pop(0)

    put_nowait = put

    def empty(self):
        return not self.items

    def close(self):
        pass

    join_thread = cancel_join_thread = close


class Pipe(object):
    def __init__(self, r, w):
        self.r, self.w = os.fdopen(r, 'rb', 0), os.fdopen(w, 'wb', 0)

    def send(self, obj):
        b = pickle.dumps(obj, 2)
        self.w.write(len(b).to_bytes(8, 'big') + b)

    def receive(self):
        n = self.read(8)
        return pickle.loads(self.read(int.from_bytes(n, 'big')))

    def read(self, n):
        b = b''
        while len(b) < n:
            c = self.r.read(n - len(b))
            if not c:
                raise EOFError()
            b += c
        return b

    def close(self):
        self.r.close()
        self.w.close()


class Process(object):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.state = 'new'
        self.queue = None
        self.puts = []
        self.used = False
        self.exitcode = None
        self.daemon = daemon
        self.name = name or 'stand-in'

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if not self.pid:
            code = 1
            try:
                os.close(r1)
                os.close(w2)
                for w in CTL.workers:
                    w.pipe.close()
                CTL.child = Pipe(r2, w1)
                import logging
                logging.disable(logging.CRITICAL)
                self.target(*self.args, **self.kwargs)
                code = 0
            except BaseException:
                pass
            finally:
                os._exit(code)
        os.close(w1)
        os.close(r2)
        self.pipe = Pipe(r1, w2)
        self.state = 'busy'
        CTL.workers.append(self)

    def advance(self):
        """reads what the worker does until it waits for something or ends"""
        while self.state == 'busy':
            try:
                what, q, obj = self.pipe.receive()
            except EOFError:
                self.state = 'dead'
                self.exitcode = os.waitpid(self.pid, 0)[1]
                return
            if what == 'get':
                self.state, self.queue = 'get', CTL.queues[q]
            else:
                self.puts.append((CTL.queues[q], obj))

    def reply(self, obj):
        self.state = 'busy'
        self.pipe.send(obj)

    def is_alive(self):
        self.advance()
        return self.state != 'dead'

    def join(self, timeout=None):
        CTL.pump(lambda: self.state == 'dead')

    def terminate(self):
        self.finish()

    kill = terminate

    def finish(self):
        if self.state not in ('new', 'dead'):
            os.kill(self.pid, 9)
            os.waitpid(self.pid, 0)
            self.state = 'dead'


CTL = None


def multiproc(R, W, faults, kind, choose, tmp, lb):
    global CTL
    import multiprocessing
    import openmdao.drivers.predeterminedruns_driver as pd
    CTL = Control(choose)
    names = ('Queue', 'Process', 'SimpleQueue', 'JoinableQueue')
    old = []
    for mod in (multiprocessing, pd):
        for nm in names:
            if hasattr(mod, nm):
                old.append((mod, nm, getattr(mod, nm)))
                setattr(mod, nm, Process if nm == 'Process' else Queue)
    fn = os.path.join(tmp, 'log')
    fd = os.open(fn, os.O_CREAT | os.O_TRUNC | os.O_APPEND | os.O_RDWR)

    def log(x, a):
        b = pickle.dumps((x, a))
        os.write(fd, len(b).to_bytes(8, 'big') + b)
        # what a worker prints is printed
    err = None
    out = io.StringIO()
    try:
        prob, rec = make(faults, kind, W, lb, log)
        prob.setup(check=False)
        try:
            with contextlib.redirect_stdout(out):
                prob.run()
        except Never:
            err = 'never ends'
        except Exception as e:
            err = traceback.format_exc()
        data = open(fn, 'rb').read()
        ran, i = [], 0
        while i < len(data):
            n = int.from_bytes(data[i:i + 8], 'big')
            ran.append(pickle.loads(data[i + 8:i + 8 + n]))
            i += 8 + n
        if not R.check(err != 'never ends', 'mp:never-ends', lambda: 'choices %s, ran %s' % (choose.taken, ran)):
            return
        fatal = any(f in 'hp' for f in faults)
        R.check(err is None or fatal, 'mp:raised', lambda: str(err))
        got = responses(prob)
        judge(R, 'mp', faults, kind, ran, got, out.getvalue() + str(err), False, [c for d, s, m, c in rec.got])
        R.check(sorted((float(d['x']), s, m) for d, s, m in got) == sorted((float(d['x']), s, m) for d, s, m, c in rec.got), 'mp:recorders-differ',
                lambda: '%s %s' % (got, rec.got))
        R.check(all(np.array_equal(a, b) for a, b in zip([np.ravel(d[k]) for d, s, m in got for k in 'xafg'],
                                                       [np.ravel(d[k]) for d, s, m, c in rec.got for k in 'xafg'])), 'mp:recorders-differ', '')
    finally:
        os.close(fd)
        for w in CTL.workers:
            w.finish()
            w.pipe.close()
        for mod, nm, v in old:
            setattr(mod, nm, v)


# ------------------------------------------------------------------ MPI: one thread per rank
def ranks(R, how, W, faults, kind, choose):
    import openmdao.core.mpi_wrap as mw
    import openmdao.drivers.predeterminedruns_driver as pd
    import openmdao.recorders.recording_manager as rm
    size = W
    world = World(size, choose, how == 'rv')
    ran = []
    old = [(m, m.MPI) for m in (mw, pd, rm)]
    for m, v in old:
        m.MPI = FakeMPI
    out = io.StringIO()
    probs = {}

    def one(rank):
        HERE.comm = comm = Comm(world, list(range(size)), rank, ())
        prob, rec = make(faults, kind, W, how != 'par', lambda x, a: ran.append((x, a)), comm)
        probs[rank] = (prob, rec)
        prob.setup(check=False)
        err = None
        try:
            prob.run()
        except Exception as e:
            err = e
        return err, responses(prob), responses(prob, 'get_all_responses') if how == 'par' and err is None else None
    try:
        with contextlib.redirect_stdout(out):
            finished = world.run(one)
    finally:
        for m, v in old:
            m.MPI = v
    tag = how
    printed = out.getvalue()
    if not R.check(finished, tag + ':never-ends', lambda: 'choices %s ran %s waiting %s' % (choose.taken, ran, world.wait)):
        return
    bad = [v[1] for v in world.ranks.values() if v[0] == 'error']
    if not R.check(not bad, tag + ':raised', lambda: bad[0]):
        return
    res = [world.ranks[r][1] for r in range(size)]
    fatal = any(f in 'h' for f in faults)
    if how == 'par':
        if fatal:
            first = min(k for k in range(len(faults)) if faults[k] == 'h') // W
            R.check(all(r[0] is not None for r in res) and any('hard failure' in str(r[0]) for r in res), 'par:error-lost', lambda: str(res))
            # whole rounds were finished before the one that failed
            got = res[0][1]
            judge(R, tag, faults, kind, [(x, a) for x, a in ran if (int(round(x)) - 1) // W < first], got, printed, False)
            return
    R.check(all(r[0] is None for r in res), tag + ':raised', lambda: str(res))
    got = res[0][1]
    judge(R, tag, faults, kind, ran, got, printed, False, None if how == 'par' else None)
    rec = probs[0][1]
    R.check(sorted((float(d['x']), s, m) for d, s, m in got) == sorted((float(d['x']), s, m) for d, s, m, c in rec.got), tag + ':recorders-differ',
            lambda: '%s %s' % (got, rec.got))
    if how == 'par':
        for r in res:
            if r[2] is not None:
                R.check(sorted(float(d['x']) for d, s, m in r[2]) == sorted(float(d['x']) for d, s, m in got), 'par:get_all_responses', lambda: str(r[2]))
