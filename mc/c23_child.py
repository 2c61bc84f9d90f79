"""Runs real commands through ExternalCode, in a session of its own and without privileges.
usage: python -m mc.c23_child SCRATCH JSON-LIST ; prints one JSON line per scenario."""
import json
import os
import signal
import sys
import time
import io


def alive(pgid):
    out = []
    for d in os.listdir('/proc'):
        if d.isdigit():
            try:
                st = open('/proc/%s/stat' % d).read().rsplit(')', 1)[1].split()
            except (IOError, OSError):
                continue
            if int(st[2]) == pgid and st[0] not in 'ZX':
                out.append(int(d))
    return out


def main():
    scratch, todo = sys.argv[1], json.loads(sys.argv[2])
    for n in (signal.SIGHUP, signal.SIGINT, signal.SIGQUIT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGUSR2):
        if signal.getsignal(n) == signal.SIG_IGN:       # whoever started the check ignores it (nohup)
            signal.signal(n, signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    from openmdao.api import Problem, Group, ExternalCode, AnalysisError
    for k, s in enumerate(todo):
        d = os.path.join(scratch, 'r%d' % k)
        os.mkdir(d)
        os.chdir(d)
        with open('in.txt', 'w') as f:
            f.write('hello input\n')
        os.environ['KEPT'] = 'kept value'
        c = ExternalCode()
        c.options['command'] = ['/bin/sh', '-c', s['script']] + s.get('args', [])
        for o in ('timeout', 'poll_delay', 'fail_hard', 'env_vars', 'external_input_files', 'external_output_files'):
            if o in s:
                c.options[o] = s[o]
        for o in ('stdin', 'stdout', 'stderr'):
            if o in s:
                setattr(c, o, c.STDOUT if s[o] == 'STDOUT' else s[o])
        if s.get('directory'):
            c.directory = s['directory']
            if s.get('mkdir'):
                os.mkdir(s['directory'])
                with open(os.path.join(s['directory'], 'in.txt'), 'w') as f:
                    f.write('hello other\n')
        if s.get('own'):
            n = os.path.join(s.get('directory', ''), 'mine')
            with open(n, 'w') as f:
                f.write('#!/bin/sh\n' + s['script'])
            os.chmod(n, 0o755)
            c.options['command'] = ['./mine']
        p = Problem(root=Group())
        p.root.add('c', c)
        res = {}
        try:
            p.setup(check=False)
            before = sorted(os.listdir('/proc/self/fd'))
            t = time.time()
            try:
                p.run()
                res['exc'] = None
            except Exception as e:
                res['exc'] = ['AnalysisError' if isinstance(e, AnalysisError) else type(e).__name__, str(e)]
            res['time'] = time.time() - t
            res['fds'] = [before, sorted(os.listdir('/proc/self/fd'))]
        except Exception as e:
            res['exc'] = ['setup:' + type(e).__name__, str(e)]
        res['rc'] = c.return_code
        res['cwd'] = os.getcwd() == d
        base = os.path.join(d, s['directory']) if s.get('directory') else d
        res['files'] = dict((n, io.open(os.path.join(base, n), 'r', errors='replace').read()) for n in sorted(os.listdir(base))
                            if os.path.isfile(os.path.join(base, n)))
        res['base'] = os.path.realpath(base)
        if 'pid.txt' in res['files']:
            pgid = int(res['files']['pid.txt'])
            end = time.time() + 5.
            while alive(pgid) and time.time() < end:
                time.sleep(.02)
            res['left'] = alive(pgid)
            for q in res['left']:
                try:
                    os.kill(q, 9)
                except OSError:
                    pass
        sys.stdout.write('RESULT ' + json.dumps(res) + '\n')
        sys.stdout.flush()


if __name__ == '__main__':
    main()
