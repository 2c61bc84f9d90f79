"""C12: a process that dies while it records to a Sqlite file loses and alters nothing that was recorded."""
from itertools import product
import hashlib
import json
import os
import pickle
import shutil
import struct
import subprocess
import sys
import tempfile
import numpy as np

PID = 'C12'
LEVEL = 'fault_enumeration'
RULE = ('histories = drivers (single runs, DOE, SLSQP) x owners x sizes of the arrays x derivative recordings x second setups x journal '
        'modes x a component failing at every call with every kind of exception; the changes of the files made by each history are '
        'journalled at the system calls (LD_PRELOAD) together with the moments at which a recording has returned; every prefix of the '
        'journal is a crash point, as are the writes done by half (thorough: cut at every sector and byte ends); each of these file '
        'states is opened with the case reader and compared.  For a part of the histories the process is really killed at every change.')
ASSUMPTIONS = ['what the process has written before it dies is in the files (the process dies, not the machine)',
               'only changes to the files are crash points: nothing happens to the files in between']
NOTE = 'all crash points of all histories in the bounds; the delay before each change of a file makes late writes lose against the acknowledgement'
CASE_LIMIT = 300
CHUNK = 1

EXC = ['AnalysisError', 'ValueError', 'KeyboardInterrupt', 'SystemExit', '_exit']


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(**kw):
        d = dict(drv='once', n=2, size=2, own='d', deriv=0, setup=0, jm=None, fail=None, opts=3, kill=0, end='_exit')
        d.update(kw)
        if d not in out:
            out.append(d)
    for own in ('d', 's', 'ds'):
        for size in ((1, 40, 1500) if q else (0, 1, 40, 600, 1500, 9000)):
            for deriv in (0, 1, 2):
                if deriv and size > 40:
                    continue
                add(own=own, size=size, deriv=deriv, n=1 if size > 600 and q else 2)
    for n in (0, 1, 3, 4) if q else range(8):
        for end in ('_exit', 'close'):
            add(n=n, end=end)
    for drv in ('doe', 'SLSQP'):
        for own in ('d', 'ds'):
            add(drv=drv, own=own, n=2)
    for jm in ('TRUNCATE', 'PERSIST', 'DELETE'):
        for deriv in (0, 1):
            add(jm=jm, deriv=deriv)
    for setup in (1, 2):
        for own in ('d', 'ds'):
            add(setup=setup, own=own, n=2, deriv=1)
    for opts in (0, 1, 4, 7, 15) if q else range(16):
        add(opts=opts, n=1, deriv=1)
    for exc in EXC:
        for k in range(0, 6 if q else 12):
            for drv in ('once', 'doe', 'SLSQP'):
                if q and drv == 'SLSQP' and (exc != 'ValueError'):
                    continue
                if q and exc not in ('AnalysisError', 'ValueError') and k % 2:
                    continue
                add(drv=drv, own='ds' if k % 2 else 'd', fail=[k, exc], n=2, end='close' if exc == 'AnalysisError' else '_exit')
    for own in ('d',) if q else ('d', 'ds'):
        for deriv in (0, 1):
            add(own=own, n=1, kill=1, deriv=deriv)
    for drv in ('doe',) if q else ('doe', 'SLSQP'):
        add(drv=drv, n=2, kill=1)
    for d in out:
        d['torn'] = 'half' if q else 'all'
    out.sort(key=lambda d: -(d['kill'] * 50 + d['size']))
    return out


# ------------------------------------------------------------------ in the child
def acker(fd):
    from openmdao.recorders.base_recorder import BaseRecorder

    class Ack(BaseRecorder):
        """comes right after the recorder: what arrives here has been recorded"""
        def __init__(self):
            super(Ack, self).__init__()
            self.options['record_metadata'] = False
            self.options['record_params'] = True
            self.options['record_resids'] = True

        def record_metadata(self, group):
            pass

        def record_iteration(self, params, unknowns, resids, metadata):
            get = lambda v: dict((n, np.copy(v[n]) if isinstance(v[n], np.ndarray) else v[n]) for n in v)
            say(fd, dict(kind='i', coord=metadata['coord'], success=metadata['success'], msg=metadata['msg'], p=get(params), u=get(unknowns), r=get(resids)))

        def record_derivatives(self, derivs, metadata):
            say(fd, dict(kind='d', coord=metadata['coord'], derivs=derivs))
    return Ack()


def say(fd, msg):
    b = pickle.dumps(msg)
    os.write(fd, struct.pack('<q', len(b)) + b)


def history(h, where):
    """runs in a process of its own"""
    from openmdao.api import Problem, Group, Component, IndepVarComp, ScipyOptimizer, AnalysisError, NLGaussSeidel
    from openmdao.drivers.fullfactorial_driver import FullFactorialDriver
    from openmdao.recorders.sqlite_recorder import SqliteRecorder
    from mc.checks import c10
    count = [0]
    size = h['size']

    class Comp(Component):
        def __init__(self, i, o, n, m):
            super(Comp, self).__init__()
            self.i, self.o = i, o
            self.add_param(i, np.zeros(n))
            self.add_output(o, np.zeros(m))

        def solve_nonlinear(self, p, u, r):
            k = count[0]
            count[0] += 1
            if h['fail'] and h['fail'][0] == k:
                e = h['fail'][1]
                if e == '_exit':
                    os._exit(3)
                raise {'AnalysisError': AnalysisError, 'ValueError': ValueError, 'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit}[e]('at %d' % k)
            if self.o == 'f':
                u['f'] = np.sum((p['y'] - 1.) ** 2)[None]
            else:
                u['y'] = np.arange(size) + p['x'][0]

        def linearize(self, p, u, r):
            if self.o == 'f':
                return {('f', 'y'): 2. * (p['y'] - 1.)[None, :]}
            J = np.zeros((size, 2))
            J[:, 0] = 1.
            return {('y', 'x'): J}
    prob = Problem(root=Group())
    prob.root.add('ind', IndepVarComp('x', np.ones(2)), promotes=['*'])
    g = prob.root.add('g', Group(), promotes=['*'])
    g.add('c', Comp('x', 'y', 2, size), promotes=['*'])
    g.nl_solver = NLGaussSeidel()
    g.nl_solver.options['maxiter'] = 2
    prob.root.add('d', Comp('y', 'f', size, 1), promotes=['*'])
    if h['drv'] == 'doe':
        prob.driver = FullFactorialDriver(num_levels=2)
    elif h['drv'] == 'SLSQP':
        prob.driver = ScipyOptimizer()
        prob.driver.options['optimizer'] = 'SLSQP'
        prob.driver.options['maxiter'] = h['n']
        prob.driver.options['disp'] = False
    else:
        prob.driver = c10.driver(prob, 'once', None) if 0 else once()
    prob.driver.add_desvar('x', lower=-1., upper=2., indices=[0] if h['drv'] == 'SLSQP' else None)
    prob.driver.add_objective('f')
    kw = {'journal_mode': h['jm']} if h['jm'] else {}
    fd = os.open(os.path.join(where, 'ack'), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    rec = SqliteRecorder(os.path.join(where, 'f.db'), **kw)
    rec.options['record_unknowns'] = bool(h['opts'] & 1)
    rec.options['record_params'] = bool(h['opts'] & 2)
    rec.options['record_resids'] = bool(h['opts'] & 4)
    rec.options['record_metadata'] = not h['opts'] & 8
    say(fd, dict(kind='ready'))
    ack = acker(fd)
    owners = {'d': [prob.driver], 's': [prob.root.nl_solver, g.nl_solver], 'ds': [prob.driver, g.nl_solver]}[h['own']]
    for o in owners:
        o.add_recorder(rec)
        o.add_recorder(ack)
    prob.setup(check=False)
    try:
        for i in range(h['n'] if h['drv'] == 'once' else 1):
            if h['setup'] and i >= h['setup']:
                prob.setup(check=False)
            if h['drv'] == 'once':
                prob['x'] = np.array([1.5 + i, 2.])
            prob.run()
            if h['drv'] == 'once':
                for k in range(h['deriv']):
                    prob.driver.calc_gradient(['x'], ['y', 'f'][k:], return_format=['dict', 'array'][k % 2])
    except BaseException:
        if h['end'] != 'close':
            os._exit(4)
    if h['end'] == 'close':
        prob.cleanup()
        rec.close()
        say(fd, dict(kind='closed'))
    os._exit(0)


def once():
    from openmdao.api import Driver

    class D(Driver):
        def run(self, problem):
            self._problem = problem
            super(D, self).run(problem)
    return D()


def server():
    """forks a process for every history asked for"""
    import ctypes
    import signal
    import warnings
    warnings.simplefilter('ignore')
    lib = ctypes.CDLL(os.environ['LD_PRELOAD'])
    lib.mcj_config.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_long, ctypes.c_long, ctypes.c_long]
    import openmdao.api     # noqa
    import openmdao.recorders.sqlite_recorder   # noqa
    from mc.checks import c10   # noqa
    inp = os.fdopen(os.dup(0), 'r')
    outp = os.fdopen(os.dup(1), 'w')
    null = os.open('/dev/null', os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    for line in inp:
        q = json.loads(line)
        pid = os.fork()
        if pid == 0:
            signal.alarm(100)
            try:
                lib.mcj_config(q['dir'].encode(), q['log'].encode(), q['kill'], q['part'], q['delay'])
                history(q['h'], q['dir'])
            except BaseException:
                import traceback
                lib.mcj_config(b'', b'', -1, 0, 0)
                with open(q['log'] + '.err', 'w') as f:
                    f.write(traceback.format_exc())
            os._exit(9)
        st = os.waitpid(pid, 0)[1]
        outp.write(json.dumps(st) + '\n')
        outp.flush()


# ------------------------------------------------------------------ in the checker
_server = []


def library():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    src = os.path.join(here, 'native', 'fjournal.c')
    with open(src, 'rb') as f:
        tag = hashlib.sha1(f.read()).hexdigest()[:12]
    out = os.path.join(os.path.dirname(here), 'out')
    os.makedirs(out, exist_ok=True)
    so = os.path.join(out, 'fjournal-%s.so' % tag)
    if not os.path.exists(so):
        tmp = so + '.%d' % os.getpid()
        subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-o', tmp, src, '-ldl', '-lpthread'])
        os.rename(tmp, so)
    return so


def ask(**q):
    if not _server or _server[0][0] != os.getpid():
        env = dict(os.environ, LD_PRELOAD=library())
        here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        p = subprocess.Popen([sys.executable, '-c', 'import sys; sys.path.insert(0, %r); from mc.checks import c12; c12.server()' % here],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, universal_newlines=True)
        _server[:] = [(os.getpid(), p)]
    p = _server[0][1]
    p.stdin.write(json.dumps(q) + '\n')
    p.stdin.flush()
    return json.loads(p.stdout.readline())


def journal(fn):
    """-> list of (op, path, offset, data)"""
    with open(fn, 'rb') as f:
        b = f.read()
    out, i = [], 0
    while i < len(b):
        op = b[i:i + 1].decode()
        n, = struct.unpack_from('<i', b, i + 1)
        i += 5
        path = b[i:i + n].decode()
        i += n
        off, length = struct.unpack_from('<qq', b, i)
        i += 16
        data = b''
        if op in 'WR':
            data = b[i:i + length]
            i += length
        out.append((op, path, off, data))
    return out


def apply_op(files, op, path, off, data):
    if op == 'C':
        files[path] = b''
    elif op == 'U':
        files.pop(path, None)
    elif op == 'R':
        files[data.decode()] = files.pop(path)
    elif op == 'T':
        f = files[path]
        files[path] = f[:off] + b'\0' * (off - len(f))
    else:
        f = files[path]
        if len(f) < off:
            f += b'\0' * (off - len(f))
        files[path] = f[:off] + data + f[off + len(data):]


def acks(b):
    out, i = [], 0
    while i + 8 <= len(b):
        n, = struct.unpack_from('<q', b, i)
        if i + 8 + n > len(b):
            break
        out.append(pickle.loads(b[i + 8:i + 8 + n]))
        i += 8 + n
    return out


def run(h, R):
    tmp = tempfile.mkdtemp()
    try:
        where = os.path.join(tmp, 'w')
        os.mkdir(where)
        log = os.path.join(tmp, 'log')
        st = ask(h=h, dir=where, log=log, kill=-1, part=0, delay=1500)
        if os.path.exists(log + '.err'):
            with open(log + '.err') as f:
                R.fail('history', f.read()[-900:])
            return
        R.check(os.WIFEXITED(st) and os.WEXITSTATUS(st) in (0, 3, 4), 'history-end', str(st))
        ops = journal(log)
        # the journal is all there is: it gives the files the process left
        files = {}
        for op in ops:
            apply_op(files, *op)
        real = dict((n, open(os.path.join(where, n), 'rb').read()) for n in os.listdir(where))
        R.check(real == files, 'harness-journal', '%s %s' % (sorted(real), sorted(files)))
        every = acks(files['ack'])
        seen = {}
        crash_points(R, h, ops, every, seen, tmp)
        if h['kill']:
            kills(R, h, len(ops), every, tmp)
        R.trace()
    finally:
        shutil.rmtree(tmp)


def cuts(h, data):
    n = len(data)
    if h['torn'] == 'half':
        return [n // 2] if n > 1 else []
    return sorted(set([1, n // 2, n - 1] + list(range(512, n, 512))) - {0, n}) if n > 1 else []


def crash_points(R, h, ops, every, seen, tmp):
    files = {}
    for k, (op, path, off, data) in enumerate(ops + [(None,) * 4]):
        ready = acks(files.get('ack', b''))
        if ready and (k == len(ops) or path != 'ack' or True):
            look(R, h, files, ready, every, seen, tmp, 'before change %d' % k)
        if op is None:
            break
        if op == 'W' and path != 'ack' and ready:
            for c in cuts(h, data):
                torn = dict(files)
                apply_op(torn, 'W', path, off, data[:c])
                look(R, h, torn, ready, every, seen, tmp, 'change %d cut at %d' % (k, c))
        apply_op(files, op, path, off, data)
        R.step()


def look(R, h, files, got, every, seen, tmp, when):
    """one crashed state: the files, and what had been recorded"""
    hh = hashlib.sha1()
    for n in sorted(files):
        if n != 'ack':
            hh.update(n.encode() + b'\0' + hashlib.sha1(files[n]).digest())
    key = (hh.hexdigest(), len(got))
    if key in seen:
        return
    seen[key] = 1
    R.state((json.dumps(h, sort_keys=True), len(seen)))
    d = tempfile.mkdtemp(dir=tmp)
    for n, b in files.items():
        if n != 'ack':
            with open(os.path.join(d, n), 'wb') as f:
                f.write(b)
    try:
        verify(R, h, os.path.join(d, 'f.db'), got, every, when)
    finally:
        shutil.rmtree(d)


def verify(R, h, fn, got, every, when):
    from openmdao.recorders.case_reader import CaseReader
    from mc.checks.c10 import fmt
    from mc.checks.c11 import exact, derivs_same
    want = [a for a in got if a['kind'] == 'i']
    then = every[len(got)] if len(got) < len(every) else None
    try:
        cr = CaseReader(fn)
        ids = list(cr.list_cases())
        cases = [cr.get_case(i) for i in range(cr.num_cases)]
    except Exception as err:
        R.fail('not-readable', '%s, %d recorded: %r' % (when, len(want), err))
        return
    wid = [fmt(a['coord']) for a in want]
    R.check(ids[:len(wid)] == wid, 'lost', lambda: '%s: %s of %s' % (when, ids, wid))
    extra = ids[len(wid):]
    R.check(len(extra) <= 1, 'extra', lambda: '%s: %s after %s' % (when, extra, wid))
    if extra and then is not None:
        # in flight: complete, and nothing but the next one
        R.check(then['kind'] == 'i' and extra == [fmt(then['coord'])], 'extra', lambda: '%s: %s' % (when, extra))
        want = want + [then]
    last = {}
    for a in got:
        if a['kind'] == 'd':
            last[fmt(a['coord'])] = a['derivs']
    for a, c in zip(want, cases):
        same = c.success == a['success'] and c.msg == a['msg']
        for attr, k, bit in (('unknowns', 'u', 1), ('parameters', 'p', 2), ('resids', 'r', 4)):
            v = getattr(c, attr)
            if not h['opts'] & bit:
                same = same and v is None
            else:
                same = same and v is not None and set(v) == set(a[k]) and all(exact(a[k][n], v[n], False) for n in v)
        R.check(same, 'altered', lambda: '%s: %s' % (when, c.case_id))
        J = last.get(c.case_id)
        ok = [J]
        if then is not None and then['kind'] == 'd' and fmt(then['coord']) == c.case_id:
            ok.append(then['derivs'])
        R.check(any((c.derivs is None) if x is None else (c.derivs is not None and derivs_same(x, c.derivs)) for x in ok), 'derivs-lost',
                lambda: '%s: %s has %r' % (when, c.case_id, c.derivs))


def kills(R, h, n, every, tmp):
    """the same with a process that is really killed; times differ, so only the cases of this very process are compared"""
    k = 0
    while True:
        where = tempfile.mkdtemp(dir=tmp)
        log = os.path.join(tmp, 'klog')
        st = ask(h=h, dir=where, log=log, kill=k, part=(0, 100)[k % 2], delay=0)
        if not (os.WIFSIGNALED(st) and os.WTERMSIG(st) == 9):
            break
        try:
            with open(os.path.join(where, 'ack'), 'rb') as f:
                got = acks(f.read())
        except IOError:
            got = []
        if got:
            verify(R, h, os.path.join(where, 'f.db'), got, every if len(every) > len(got) else got, 'killed at %d' % k)
            R.state((json.dumps(h, sort_keys=True), 'kill', k))
        shutil.rmtree(where)
        k += 1
        R.step()
    R.check(k >= n // 2, 'harness-kills', '%d of %d' % (k, n))
