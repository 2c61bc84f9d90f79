"""C23: outcomes of external commands."""
from itertools import product
import contextlib
import io
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import warnings

PID = 'C23'
LEVEL = 'model_checking'
RULE = ('exhaustive enumeration, under a virtual clock with a stand-in for the process, of completion time against time limit and poll delay, exit status '
        'and signal, redirection, missing files, failures of opening and starting, and all sequences of outcomes of one component; each outcome of the '
        'real ExternalCode/ShellProc code is compared with the classification rule; plus every real command of a family, in an unprivileged session')
ASSUMPTIONS = ['a command that ends between the time limit and two polls after it may count as timed out or as completed', 'processes that ignore SIGTERM, and windows, are left out']
NOTE = 'time is virtual in all but the cases of kind real'

REAL = {'sleep': time.sleep, 'time': time.time, 'monotonic': time.monotonic, 'perf_counter': time.perf_counter}
RP = dict((n, getattr(subprocess.Popen, n)) for n in ('__init__', 'poll', 'wait', 'communicate', 'send_signal', 'terminate', 'kill', '__del__'))
RO = dict((n, getattr(os, n)) for n in ('killpg', 'kill', 'getpgid'))


class Clock(object):
    """virtual time, the process and what was done to it"""
    active = None

    def __init__(self, plans, startfault=None):
        self.now = 1000.
        self.plans = list(plans)            # (duration, rc, stderr bytes, files to create)
        self.procs = []
        self.startfault = startfault

    def __enter__(self):
        Clock.active = self
        return self

    def __exit__(self, *a):
        Clock.active = None

    def fake(self, pid):
        for p in self.procs:
            if p.fake_pid == pid:
                return p
        return None


def _sleep(t):
    if Clock.active:
        Clock.active.now += t
        if Clock.active.now > 1e5:
            raise Hang()
    else:
        REAL['sleep'](t)


class Hang(Exception):
    pass


def _clock(name):
    def now():
        return Clock.active.now if Clock.active else REAL[name]()
    return now


def _init(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None, **kw):
    c = Clock.active
    if not c:
        return RP['__init__'](self, args, bufsize, executable, stdin, stdout, stderr, preexec_fn, close_fds, shell, cwd, env, **kw)
    self._child_created = False
    self.returncode = None
    self.args = args
    self.stdin = self.stdout = self.stderr = None
    if c.startfault:
        raise c.startfault
    c.procs.append(self)
    self.pid = self.fake_pid = 4000000 + len(c.procs)
    self.kw = {'args': args, 'stdin': stdin, 'stdout': stdout, 'stderr': stderr, 'shell': shell, 'cwd': cwd or os.getcwd(), 'env': dict(os.environ if env is None else env)}
    self.group = preexec_fn is not None or kw.get('start_new_session')
    self.signals = []
    dur, rc, text, files = c.plans.pop(0)
    self.end, self.rc, self.files = c.now + dur, rc, files
    if text and hasattr(stderr, 'fileno'):
        os.write(stderr.fileno(), text)


def _poll(self):
    c = Clock.active
    if not c or not hasattr(self, 'fake_pid'):
        return RP['poll'](self)
    if self.returncode is None and c.now >= self.end - 1e-9:
        self.returncode = self.rc
        for f in self.files:
            open(f, 'w').close()
    return self.returncode


def _wait(self, timeout=None):
    c = Clock.active
    if not c or not hasattr(self, 'fake_pid'):
        return RP['wait'](self, timeout)
    if self.returncode is None:
        if timeout is not None and c.now + timeout < self.end:
            c.now += timeout
            raise subprocess.TimeoutExpired(self.args, timeout)
        if self.end == float('inf'):
            raise Hang()
        c.now = max(c.now, self.end)
    return self.poll()


def _hit(p, sig, how):
    p.signals.append([how, int(sig)])
    if sig and p.returncode is None:
        p.end, p.rc, p.files = Clock.active.now + .01, -int(sig), []


def _killpg(pgid, sig):
    c = Clock.active
    if not c:
        return RO['killpg'](pgid, sig)
    p = c.fake(pgid)
    if p is None or not p.group:
        c.stray = [pgid, int(sig)]
        raise ProcessLookupError('no such group')
    _hit(p, sig, 'group')


def _kill(pid, sig):
    c = Clock.active
    if not c:
        return RO['kill'](pid, sig)
    p = c.fake(pid)
    if p is None:
        c.stray = [pid, int(sig)]
        raise ProcessLookupError('no such process')
    _hit(p, sig, 'process')


def _getpgid(pid):
    c = Clock.active
    if not c:
        return RO['getpgid'](pid)
    p = c.fake(pid)
    if p is None:
        raise ProcessLookupError('no such process')
    return pid if p.group else RO['getpgid'](0)


def install():
    """Done once, before the code under test is imported; passes through while no clock is active."""
    time.sleep = _sleep
    for n in ('time', 'monotonic', 'perf_counter'):
        setattr(time, n, _clock(n))
    P = subprocess.Popen
    P.__init__, P.poll, P.wait = _init, _poll, _wait
    P.__del__ = lambda self: None if hasattr(self, 'fake_pid') else RP['__del__'](self)
    P.send_signal = lambda self, sig: _kill(self.pid, sig) if hasattr(self, 'fake_pid') else RP['send_signal'](self, sig)
    os.killpg, os.kill, os.getpgid = _killpg, _kill, _getpgid


# ------------------------------------------------------------------ cases
TIMES = [[0., 0.], [0., .3], [1., 0.], [1., .1], [1., .3], [.35, .2], [12., 0.], [12., 2.], [.2, 5.], [150., 0.], [2., 1.]]
CODES = [0, 1, 2, 3, 13, 126, 127, 255] + [-s for s in (1, 2, 3, 6, 9, 11, 13, 15, 17, 31, 34)]
TEXTS = [b'', b'bad thing\nhappened\n', b'caf\xe9 \xff\n']


def cases(tier):
    q = tier == 'quick'
    out = []
    for td in TIMES:
        for rc in CODES if not q else CODES[:4] + [-9, -15]:
            out.append(['virt', td, rc])
    for rc in CODES + list(range(1, 256, 7 if q else 1)):
        out.append(['codes', rc])
    for rc in (0, 2, -15):
        for hard in (True, False):
            out.append(['files', rc, hard])
    for a in OUTCOMES:
        for b in OUTCOMES:
            out.append(['seq', [a, b], 3 if q else 4])
    for si in REDIR:
        for so in REDIR:
            out.append(['redir', si, so])
    for fn in ('call', 'check_call', 'wait', 'terminate'):
        for td in TIMES:
            out.append(['proc', fn, td])
    out.append(['setup'])
    n = 12
    for k in range(n):
        out.append(['real', k, n])
    return out


OUTCOMES = ['ok', 'code', 'signal', 'slow', 'no-input', 'no-output', 'start', 'text', 'no-command']
REDIR = ['none', 'path', 'baddir', 'null', 'merge', 'file', 'same']


def run(case, R):
    install()
    cwd = os.getcwd()
    tmp = tempfile.mkdtemp(prefix='mc23-')
    os.chdir(tmp)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with contextlib.redirect_stdout(io.StringIO()):
                globals()['run_' + case[0]](case, R)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    R.trace()


def fds():
    return sorted(os.listdir('/proc/self/fd'))


class Ext(object):
    def __init__(self, **opts):
        from openmdao.api import Problem, Group, ExternalCode
        self.c = ExternalCode()
        self.c.options['command'] = ['sh', 'x']
        for k, v in opts.items():
            if k in ('stdin', 'stdout', 'stderr', 'directory'):
                setattr(self.c, k, v)
            else:
                self.c.options[k] = v
        self.p = Problem(root=Group())
        self.p.root.add('c', self.c)
        self.p.setup(check=False)
        self.before = fds()

    def run(self, clock):
        from openmdao.api import AnalysisError
        t0 = clock.now
        try:
            with clock:
                self.p.run()
            exc = None
        except Hang:
            exc = ['Hang', '']
        except AnalysisError as e:
            exc = ['soft', str(e)]
        except RuntimeError as e:
            exc = ['hard', str(e)]
        except Exception as e:
            exc = [type(e).__name__, str(e)]
        self.took = clock.now - t0
        return exc


def names_of(rc):
    if rc > 0:
        return [os.strerror(rc)]
    return [n for n in dir(signal) if n.startswith('SIG') and not n.startswith('SIG_') and getattr(signal, n) == -rc] or ['']


def judge(R, key, exc, c, proc, rc, hard, text, tag):
    """exc is what must follow from exit status rc"""
    if rc == 0:
        R.check(exc is None, key + ':success-refused', [tag, exc])
    else:
        ok = R.check(exc is not None and exc[0] == ('hard' if hard else 'soft'), key + ':error-class', [tag, exc])
        if ok:
            R.check(('return_code = %d' % rc) in exc[1], key + ':code-in-message', [tag, exc])
            R.check(any(t in exc[1] for t in text), key + ':text-in-message', [tag, exc, text])
            if rc < 0:
                R.check('SIG_' not in exc[1], key + ':text-in-message', [tag, exc, text])
    R.check(c.return_code == rc, key + ':return_code', [tag, c.return_code])
    if proc is not None:
        R.check(proc.signals == [], key + ':signalled', [tag, proc.signals])


def timedout(R, key, exc, c, proc, T, tag):
    ok = R.check(exc is not None and exc[0] == 'soft' and 'imed out' in exc[1], key + ':timeout', [tag, exc])
    R.check(any(h == 'group' and s in (signal.SIGTERM, signal.SIGKILL) for h, s in proc.signals), key + ':not-terminated', [tag, proc.signals])
    R.check(c.return_code == -999999, key + ':return_code', [tag, c.return_code])
    return ok


def closed(R, key, e, proc, tag):
    R.check(fds() == e.before, key + ':descriptor-leak', [tag, e.before, fds()])
    R.check(getattr(Clock, 'stray', None) is None, key + ':stray-signal', tag)


def run_virt(case, R):
    _, (T, d), rc = case
    step = d or min(10., max(.1, T / 100.))
    grid = {0., 1e-3, step / 2, step, 1.5 * step, 2 * step, 7.3 * step, 40. * step}
    if T:
        for k in range(-3, 7):
            grid.update([T + k * step, T + k * step / 2., T + k * step + 1e-4])
        grid.add(float('inf'))
    else:
        grid.update([33., 1000.])
    for end in sorted(g for g in grid if g >= 0):
        for hard in (True, False):
            for err in ('file', 'merge', 'none'):
                kw = {'timeout': T, 'poll_delay': d, 'fail_hard': hard, 'stdout': 'out.txt'}
                e = Ext(stderr={'file': 'err.txt', 'merge': subprocess.STDOUT, 'none': None}[err], **kw)
                clock = Clock([(end, rc, b'bad thing\n', [])])
                exc = e.run(clock)
                tag = [end, hard, err]
                if not R.check(len(clock.procs) == 1, 'virt:started', [tag, exc]):
                    continue
                pr = clock.procs[0]
                late = T and end > T + 1e-6
                gone = exc is not None and 'imed out' in exc[1]
                if late and (end > T + 2 * step + 1e-6 or gone):
                    timedout(R, 'virt', exc, e.c, pr, T, tag)
                    R.check(e.took <= T + 2 * step + .1, 'virt:late-timeout', [tag, e.took])
                else:
                    judge(R, 'virt', exc, e.c, pr, rc, hard, ['bad thing'] if err == 'file' else names_of(rc), tag)
                    R.check(e.took <= max(end, step) + step + .01, 'virt:late-completion', [tag, e.took])
                closed(R, 'virt', e, pr, tag)
                R.step()
                R.state([case, tag])


def run_codes(case, R):
    rc = case[1]
    for hard in (True, False):
        for text in TEXTS:
            for err in ('file', 'removed', 'null', 'merge', 'none'):
                e = Ext(stderr={'file': 'err.txt', 'removed': 'err.txt', 'null': '/dev/null', 'merge': subprocess.STDOUT, 'none': None}[err], fail_hard=hard)
                clock = Clock([(.05, rc, text, [])])
                if err == 'removed':
                    clock.plans = [(.05, rc, text, Remover())]
                exc = e.run(clock)
                want = names_of(rc)
                if err == 'file':
                    want = [text.decode('ascii', 'ignore').split('\n')[0].strip()[:4]]
                elif err == 'removed':
                    want = ['missing']
                elif err == 'null':
                    want = ['']
                judge(R, 'codes', exc, e.c, clock.procs[0] if clock.procs else None, rc, hard, want, [rc, hard, repr(text), err])
                closed(R, 'codes', e, None, [rc, err])
                R.step()
    R.state(case)


class Remover(list):
    def __iter__(self):
        if os.path.exists('err.txt'):
            os.remove('err.txt')
        return iter([])


def run_files(case, R):
    _, rc, hard = case
    for a, b, x, y in product(('there', 'gone'), ('there', 'gone', None), ('before', 'made', 'gone'), ('made', 'gone', None)):
        for n in os.listdir('.'):
            os.remove(n)
        ins, outs, make = [], [], []
        for n, s in (('i 1', a), ('i2', b)):
            if s:
                ins.append(n)
            if s == 'there':
                open(n, 'w').close()
        for n, s in (('o1', x), ('o2', y)):
            if s:
                outs.append(n)
            if s == 'before':
                open(n, 'w').close()
            elif s == 'made':
                make.append(n)
        e = Ext(external_input_files=ins, external_output_files=outs, fail_hard=hard, stdout='s.txt')
        clock = Clock([(.25, rc, b'oops', make)])
        exc = e.run(clock)
        tag = [a, b, x, y]
        kind = 'hard' if hard else 'soft'
        lost = [n for n, s in (('i 1', a), ('i2', b)) if s == 'gone']
        left = [n for n, s in (('o1', x), ('o2', y)) if s == 'gone']
        if lost:
            R.check(exc is not None and exc[0] == kind and all(n in exc[1] for n in lost) and not any(n in exc[1] for n in ins if n not in lost), 'files:missing-input', [tag, exc])
            R.check(not clock.procs, 'files:started-without-input', tag)
            R.check(e.c.return_code == -999999, 'files:return_code', [tag, e.c.return_code])
        elif rc or not left:
            judge(R, 'files', exc, e.c, clock.procs[0], rc, hard, ['oops'], tag)
        else:
            R.check(exc is not None and exc[0] == kind and all(n in exc[1] for n in left) and not any(n in exc[1] for n in outs if n not in left), 'files:missing-output', [tag, exc])
            R.check(e.c.return_code == 0, 'files:return_code', [tag, e.c.return_code])
        closed(R, 'files', e, None, tag)
        R.state([case, tag])
        R.step()


def run_seq(case, R):
    from openmdao.api import AnalysisError
    _, first, depth = case

    def play(seq):
        for n in os.listdir('.'):
            os.remove(n)
        e = Ext(stdout='s.txt', stderr='err.txt', timeout=2., external_input_files=['in'], external_output_files=['out'])
        for k, o in enumerate(seq):
            e.c.options['fail_hard'] = hard = k % 2 == 0
            e.c.options['command'] = ['sh', 'x'] if o != 'no-command' else []
            open('in', 'w').close()
            if os.path.exists('out'):
                os.remove('out')
            if o == 'no-input':
                os.remove('in')
            text = ('text of run %d' % k).encode()
            clock = Clock([{'ok': (.2, 0, text, ['out']), 'code': (.2, 3, b'', ['out']), 'text': (.2, 4, text, []), 'signal': (.2, -9, b'', []), 'slow': (50., 0, text, ['out']),
                            'no-output': (.2, 0, text, [])}.get(o, (.2, 0, b'', ['out']))])
            if o == 'start':
                clock.startfault = OSError('cannot start')
            exc = e.run(clock)
            tag = [seq[:k + 1]]
            pr = clock.procs[0] if clock.procs else None
            if o in ('ok', 'code', 'signal', 'text'):
                judge(R, 'seq', exc, e.c, pr, {'ok': 0, 'code': 3, 'signal': -9, 'text': 4}[o], hard, [text.decode() if o == 'text' else 'return_code'], tag)
                if exc is not None:
                    R.check(not any('run %d' % j in exc[1] for j in range(k)), 'seq:old-text', [tag, exc])
            elif o == 'slow':
                timedout(R, 'seq', exc, e.c, pr, 2., tag)
            else:
                R.check(exc is not None and exc[0] == {'no-input': 'hard' if hard else 'soft', 'no-output': 'hard' if hard else 'soft', 'start': 'OSError', 'no-command': 'ValueError'}[o],
                        'seq:error-class', [tag, exc])
                R.check(e.c.return_code == 0 if o == 'no-output' else e.c.return_code != 0, 'seq:return_code', [tag, e.c.return_code])
            closed(R, 'seq', e, None, tag)
            R.step()
        R.state(seq)

    def rec(seq):
        play(seq)
        if len(seq) < depth:
            for o in OUTCOMES:
                rec(seq + [o])
    rec(list(first))


def run_redir(case, R):
    _, si, so = case
    for se in REDIR:
        for fault in (None, 'start', 'slow'):
            for rc in (0, 3):
                for n in os.listdir('.'):
                    os.remove(n)
                with open('in.txt', 'w') as f:
                    f.write('input')
                own = []

                def arg(kind, which):
                    if kind == 'path':
                        return 'in.txt' if which == 'i' else which + '.txt'
                    if kind == 'same':
                        return 'in.txt' if which == 'i' else 'both.txt'
                    if kind == 'file':
                        own.append(open('in.txt' if which == 'i' else which + 'f.txt', 'r' if which == 'i' else 'w'))
                        return own[-1]
                    return {'none': None, 'baddir': 'no/such/dir/file', 'null': '/dev/null', 'merge': subprocess.STDOUT if which == 'e' else subprocess.DEVNULL}[kind]
                args = [arg(si, 'i'), arg(so, 'o'), arg(se, 'e')]
                e = Ext(stdin=args[0], stdout=args[1], stderr=args[2], timeout=1., env_vars={'AA': 'bb'})
                clock = Clock([(.25 if fault != 'slow' else 30., rc, b'oops', [])], OSError('cannot start') if fault == 'start' else None)
                exc = e.run(clock)
                tag = [si, so, se, fault, rc]
                if 'baddir' in (si, so, se):
                    R.check(exc is not None and not clock.procs, 'redir:bad-file-accepted', [tag, exc])
                    R.check(e.c.return_code == -999999, 'redir:return_code', [tag, e.c.return_code])
                elif fault == 'start':
                    R.check(exc == ['OSError', 'cannot start'], 'redir:start', [tag, exc])
                    R.check(e.c.return_code == -999999, 'redir:return_code', [tag, e.c.return_code])
                else:
                    pr = clock.procs[0]
                    if fault == 'slow':
                        timedout(R, 'redir', exc, e.c, pr, 1., tag)
                    else:
                        text = ['oops'] if se in ('path', 'same') else [''] if se == 'null' else names_of(rc)
                        judge(R, 'redir', exc, e.c, pr, rc, True, text, tag)
                    for n, a, kind in zip(('stdin', 'stdout', 'stderr'), args, (si, so, se)):
                        g = pr.kw[n]
                        if isinstance(a, str):
                            R.check(getattr(g, 'name', None) == a and getattr(g, 'mode', ' ')[0] == ('r' if n == 'stdin' else 'w') and g.closed, 'redir:stream', [tag, n, repr(g)])
                        else:
                            R.check(g is a or g == a, 'redir:stream', [tag, n, repr(g)])
                    R.check(pr.kw['env'].get('AA') == 'bb' and set(os.environ) <= set(pr.kw['env']) and 'AA' not in os.environ, 'redir:environment', tag)
                    R.check(pr.kw['cwd'] == os.getcwd() and list(pr.kw['args']) == ['sh', 'x'] and not pr.kw['shell'], 'redir:command', [tag, repr(pr.kw['args'])])
                    if se in ('path', 'same'):
                        R.check(b'oops' in open(args[2], 'rb').read(), 'redir:text', tag)
                R.check(not any(f.closed for f in own), 'redir:closed-foreign', tag)
                closed(R, 'redir', e, None, tag)
                for f in own:
                    f.close()
                R.state(tag)
                R.step()


def run_proc(case, R):
    """the module functions"""
    from openmdao.util import shell_proc
    _, fn, (T, d) = case
    step = d or min(10., max(.1, T / 100.))
    ends = [0., step / 2, step, 2.5 * step] + ([T, T + 2.5 * step, float('inf')] if T else [500.])
    for end, rc, args in product(ends, (0, 5, -11), (['sh', 'x'], 'sh x')):
        if fn == 'terminate' and end == 0:
            continue
        clock = pr = p = None
        before = fds()
        clock = Clock([(end, rc, b'oops', [])])
        tag = [end, rc, args]
        late = T and end > T + 2 * step + 1e-6
        exc = res = None
        with clock:
            try:
                if fn == 'call':
                    res = shell_proc.call(args, '/dev/null', 'o.txt', 'e.txt', {'A': 'b'}, poll_delay=d, timeout=T)
                elif fn == 'check_call':
                    shell_proc.check_call(args, None, 'o.txt', 'e.txt', {'A': 'b'}, poll_delay=d, timeout=T)
                else:
                    p = shell_proc.ShellProc(args, None, 'o.txt', 'e.txt', {'A': 'b'})
                    if fn == 'wait':
                        res = p.wait(d, T)
                    elif end > 0:
                        res = p.terminate(timeout=T)
            except Hang:
                R.fail('proc:hang', tag)
                continue
            except Exception as e:
                exc = e
        pr = clock.procs[0]
        R.check(pr.kw['shell'] == isinstance(args, str) and pr.kw['args'] == args and pr.kw['env'].get('A') == 'b', 'proc:arguments', tag)
        if fn == 'terminate':
            if end > 0:
                R.check(exc is None and pr.signals == [['group', signal.SIGTERM]] and res[0] == -signal.SIGTERM, 'proc:terminate', [tag, pr.signals, repr(res), repr(exc)])
        elif fn == 'check_call':
            if late:
                R.check(bool(pr.signals), 'proc:not-terminated', tag)
            elif not T or end <= T:
                R.check((exc is None) == (rc == 0), 'proc:check_call', [tag, repr(exc)])
                if rc and exc is not None:
                    R.check(isinstance(exc, shell_proc.CalledProcessError) and exc.returncode == rc and any(n in str(exc) for n in names_of(rc)) and 'SIG_' not in str(exc), 'proc:check_call', [tag, str(exc)])
        else:
            if not R.check(exc is None, 'proc:exception', [tag, repr(exc)]):
                continue
            if late:
                R.check(res[0] is None and 'imed out' in res[1] and bool(pr.signals), 'proc:timeout', [tag, repr(res), pr.signals])
            elif not T or end <= T:
                R.check(res[0] == rc and (any(n in res[1] for n in names_of(rc)) if rc else res[1] == '') and not pr.signals, 'proc:result', [tag, repr(res)])
        if fn != 'terminate' or end > 0:
            R.check(fds() == before, 'proc:descriptor-leak', [tag, before, fds()])
        R.state([case, tag])
        R.step()
        pr = p = None


def run_setup(case, R):
    """what the setup report says about commands and files"""
    for cmd, bad in ((['sh', 'x'], None), ([], 'empty'), (['no-such-command-here'], 'cannot be found'), (['/bin/sh'], None), (['./mine'], None), (['./gone'], 'cannot be found'), ([' '], 'empty')):
        for files, where in product(([], ['a'], ['a', 'b'], ['b']), ('', 'sub')):
            for n in ('a', 'b', 'mine'):
                for d in ('.', 'sub'):
                    if os.path.exists(os.path.join(d, n)):
                        os.remove(os.path.join(d, n))
            if where and not os.path.isdir(where):
                os.mkdir(where)
            if where:
                open('a', 'w').close()
            open(os.path.join(where, 'b'), 'w').close()
            mine = os.path.join(where, 'mine')
            with open(mine, 'w') as f:
                f.write('#!/bin/sh\n')
            os.chmod(mine, 0o755)
            e = Ext(command=cmd, external_input_files=files, directory=where)
            out = io.StringIO()
            e.p.check_setup(out)
            out = out.getvalue()
            for w in ('empty', 'cannot be found'):
                R.check((w in out) == (bad == w), 'setup:command', [cmd, files, where, out])
            R.check(('missing' in out) == ('a' in files) and ("'b'" not in out), 'setup:files', [cmd, files, where, out])
            R.state([cmd, files, where])
            R.step()


# ------------------------------------------------------------------ real commands
def scenarios():
    out = []
    say = 'echo $$ > pid.txt; pwd; echo "$EXTRA/$KEPT"; cat; echo problem >&2; '
    ends = [('exit 0', 0), ('exit 3', 3), ('exit 255', 255), ('kill -9 $$', -9), ('kill -TERM $$', -15), ('kill -HUP $$', -1), ('sleep .15; exit 0', 0), ('sleep .15; exit 7', 7),
            ('printf "\\351\\377" >&2; exit 2', 2), ('exec sleep 60', None), ('sleep 60 & sleep 60 & wait', None), ('(sleep 60 & sleep 60) & sleep 60; true', None)]
    for (end, rc), err, d, where in product(ends, ('e.txt', 'STDOUT'), (0., .03), ('', 'sub')):
        for hard in (True, False):
            if (d or where) and hard == (err == 'STDOUT'):
                continue
            s = {'script': say + end, 'rc': rc, 'stdin': 'in.txt', 'stdout': 'o.txt', 'stderr': err, 'poll_delay': d, 'fail_hard': hard, 'env_vars': {'EXTRA': 'more'},
                 'timeout': 1.5 if rc is None else 20. if hard else 0.}
            if where:
                s['directory'], s['mkdir'] = where, True
            out.append(s)
    for where, own in product(('', 'sub'), (True, False)):
        s = {'script': say + 'exit 0', 'rc': 0, 'stdin': 'in.txt', 'stdout': 'o.txt', 'stderr': 'e.txt', 'fail_hard': True, 'env_vars': {'EXTRA': 'more'}, 'poll_delay': .03, 'own': own}
        if where:
            s['directory'], s['mkdir'] = where, True
        out.append(s)
    return out


def run_real(case, R):
    _, k, n = case
    todo = scenarios()[k::n]
    os.chmod('.', 0o777)
    env = dict(os.environ)

    def drop():
        os.setsid()
        os.setgid(65534)
        os.setuid(65534)
    env['HOME'] = os.getcwd()
    pr = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'mc.c23_child', os.getcwd(), json.dumps(todo)], env=env, preexec_fn=drop,
                          stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        out, err = pr.communicate(timeout=300)
    finally:
        try:
            RO['killpg'](pr.pid, signal.SIGKILL)
        except OSError:
            pass
    got = [json.loads(l[7:]) for l in out.decode('utf8', 'replace').splitlines() if l.startswith('RESULT ')]
    if not R.check(len(got) == len(todo), 'real:runner-died', [len(got), len(todo), err.decode('utf8', 'replace')[-400:]]):
        return
    for s, g in zip(todo, got):
        tag = [s['script'].split('>&2; ', 1)[1], s['stderr'], s['fail_hard'], s['poll_delay'], s.get('directory')]
        exc, rc = g['exc'], s['rc']
        if rc is None:
            R.check(exc is not None and exc[0] == 'AnalysisError' and 'imed out' in exc[1], 'real:timeout', [tag, exc])
            R.check(g['rc'] == -999999 and g['time'] < 20., 'real:timeout', [tag, g['rc'], g['time']])
        elif rc == 0:
            R.check(exc is None, 'real:success-refused', [tag, exc])
        else:
            text = 'problem' if s['stderr'] == 'e.txt' else names_of(rc)[0]
            if R.check(exc is not None and exc[0] == ('RuntimeError' if s['fail_hard'] else 'AnalysisError'), 'real:error-class', [tag, exc]):
                R.check('return_code = %d' % rc in exc[1] and any(t in exc[1] for t in (['problem'] if s['stderr'] == 'e.txt' else names_of(rc))), 'real:message', [tag, exc])
        if rc is not None:
            R.check(g['rc'] == rc, 'real:return_code', [tag, g['rc']])
        f = g['files']
        text = '%s\nmore/kept value\nhello %s\n' % (g['base'], 'other' if s.get('directory') else 'input')
        R.check(f.get('o.txt', '').startswith(text), 'real:stdout', [tag, f.get('o.txt'), text])
        if s['stderr'] == 'e.txt':
            R.check(f.get('e.txt', '').startswith('problem') and 'problem' not in f.get('o.txt', ''), 'real:stderr', [tag, f])
        else:
            R.check('problem' in f.get('o.txt', ''), 'real:stderr', [tag, f])
        R.check(not g.get('left'), 'real:processes-left', [tag, g.get('left')])
        R.check('pid.txt' in f, 'real:not-started', tag)
        R.check(g['fds'][0] == g['fds'][1], 'real:descriptor-leak', [tag, g['fds']])
        R.check(g['cwd'], 'real:directory-left', tag)
        R.state(tag)
        R.step()
