"""C32: profiling reports every call under its caller and does not change the run."""
from itertools import product
import json
import os
import shutil
import sys
import tempfile
import warnings
import numpy as np

PID = 'C32'
LEVEL = 'model_checking'
RULE = ('bounded exhaustive enumeration: every (model tree x nonlinear solver x sequence of operations up to a length x where profiling is started and '
        'stopped in it x which call of a component fails, if any) is run profiled in a process of its own; results are compared with an unprofiled '
        'run, and the call counts of every call path, read back from the files, with those seen by the interpreter')
ASSUMPTIONS = ['a call that raises may be counted or left out', 'times are not judged, except that they are not negative by more than the clock']
NOTE = 'all combinations in the bounds are run'
CHUNK = 8

OPS = {'r': 'run', 'f': 'fwd', 'v': 'rev', 'd': 'fd'}


def cases(tier):
    depth = 2 if tier == 'quick' else 3
    out = []
    seqs = [''.join(s) for n in range(1, depth + 1) for s in product('rfvd', repeat=n) if s[0] == 'r']
    for tree, nl, seq in product(('flat', 'group', 'deep'), ('once', 'gs', 'newton'), seqs):
        n = len(seq)
        for a, b in [(a, b) for a in range(n + 1) for b in range(a, n + 1)]:
            if (a, b) != (0, n) and tree == 'group':
                continue
            out.append([tree, nl, seq, a, b, 0])
    for tree, nl, seq, fail in product(('flat', 'group', 'deep'), ('once', 'gs', 'newton'), ('rr', 'rrf', 'rrr', 'rrd', 'rdr'), (1, 2, 3, 5)):
        out.append([tree, nl, seq, 0, len(seq), fail])
    return out


def run(case, R):
    R.state(case)
    want = child(case, False)
    got = child(case, True)
    R.step(2 * len(case[2]))
    for d in (want, got):
        if 'error' in d:
            R.fail('error:%s' % d['error'].split('(')[0], d['error'])
            return
    R.check(want['values'] == got['values'], 'values', lambda: '%s\n%s' % (want['values'], got['values']))
    failed = want['failed']
    for path in sorted(set(want['counts']) | set(got['tree'])):
        w, f, g = want['counts'].get(path, 0), failed.get(path, 0), got['tree'].get(path, 0)
        if not R.check(w - f <= g <= w, 'count:fail' if case[5] else 'count', lambda: '%s: %d calls reported of %d (%d failed)' % (path, g, w, f)):
            break
    names = {}
    for path, n in got['tree'].items():
        names[path.split(',')[-1]] = names.get(path.split(',')[-1], 0) + n
    R.check(names == got['totals'], 'totals', lambda: '%s %s' % (names, got['totals']))
    R.check(sum(got['tree'].values()) == got['raw'], 'raw', lambda: '%s' % got['raw'])
    R.check(got['least'] > -.05, 'time', lambda: '%s' % got['least'])
    R.trace()


def child(case, profiled):
    """what `work` returns, from a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    res = work(case, profiled)
            except BaseException as e:
                res = {'error': '%s(%s)' % (type(e).__name__, str(e)[:300])}
            with os.fdopen(w, 'w') as f:
                json.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    return json.loads(text)


def build(tree, nl, fail, calls):
    from openmdao.api import Problem, Group, IndepVarComp, Component, NLGaussSeidel, Newton, ScipyGMRES

    class Boom(Exception):
        pass

    class C(Component):
        def __init__(self, k):
            super(C, self).__init__()
            self.k = k
            self.add_param('x', 1.)
            self.add_output('y', 0.)

        def solve_nonlinear(self, p, u, r):
            if self.name == 'b':
                calls[0] += 1
                if calls[0] == fail:
                    raise Boom()
            u['y'] = self.k * p['x'] + .1

        def linearize(self, p, u, r):
            return {('y', 'x'): np.array([[self.k]])}
    prob = Problem(root=Group())
    prob.root.add('p', IndepVarComp('x', 2.))
    g, path = prob.root, ''
    for i in range({'flat': 0, 'group': 1, 'deep': 2}[tree]):
        g = g.add('g%d' % i, Group())
        path += 'g%d.' % i
    g.add('a', C(.5))
    g.add('b', C(.25))
    g.connect('a.y', 'b.x')
    prob.root.connect('p.x', path + 'a.x')
    prob.root.add('e', C(3.))
    prob.root.connect(path + 'b.y', 'e.x')
    if nl != 'once':
        g.nl_solver = {'gs': NLGaussSeidel, 'newton': Newton}[nl]()
        g.nl_solver.options['iprint'] = -1
        g.ln_solver = ScipyGMRES()
    prob.setup(check=False)
    return prob, Boom


def work(case, profiled):
    import atexit
    tree, nl, seq, a, b, fail = case
    calls = [0]
    prob, Boom = build(tree, nl, fail, calls)
    from openmdao.util import profile
    tmp = tempfile.mkdtemp(prefix='c32')
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    spy = None
    try:
        if profiled:
            profile.setup(prob, prof_dir=tmp)
        else:
            spy = Spy(prob)
        values = []
        for i, op in enumerate(list(seq) + ['']):
            if i == a:
                profile.start() if profiled else spy.start()
            if i == b:
                profile.stop() if profiled else spy.stop()
            if not op:
                break
            try:
                if op == 'r':
                    prob['p.x'] = 2. + i
                    prob.run()
                    values.append(float(prob['e.y']))
                else:
                    values.append(prob.calc_gradient(['p.x'], ['e.y'], mode=OPS[op]).tolist())
            except Boom:
                values.append('failed')
        if not profiled:
            return dict(values=values, counts=spy.counts, failed=spy.failed)
        atexit._run_exitfuncs()
        profile._profile_out.flush()
        raw = os.path.join(tmp, 'prof_raw.0')
        root, totals = profile.process_profile([raw])
        flat, least = {}, [0.]

        def walk(node, path):
            for k in node['children']:
                p = path + [k['name']]
                assert ','.join(p) not in flat, 'twice: %s' % p
                flat[','.join(p)] = k['count']
                least[0] = min(least[0], k['time'])
                walk(k, p)
        walk(root, [])
        sys.stdout.close()
        from io import StringIO
        sys.stdout = buf = StringIO()
        profile.prof_dump(raw)
        return dict(values=values, tree=flat, totals={k: v['count'] for k, v in totals.items()}, least=least[0], raw=len(buf.getvalue().splitlines()))
    finally:
        sys.stdout = out
        shutil.rmtree(tmp, ignore_errors=True)


class Spy(object):
    """counts the calls that profiling is documented to cover, as the interpreter sees them"""

    def __init__(self, prob):
        from openmdao.api import Problem, Group, Component
        from openmdao.core.system import System
        from openmdao.solvers.solver_base import SolverBase
        self.methods = {'setup': Problem, 'run': Problem, 'calc_gradient': Problem, 'solve_nonlinear': System, 'apply_nonlinear': System, 'solve_linear': System,
                        'apply_linear': System, 'solve': SolverBase, 'fd_jacobian': System, 'linearize': System, 'complex_step_jacobian': Component,
                        '_transfer_data': Group}
        self.objs = {id(prob): label(prob)}
        for s in prob.root.subsystems(recurse=True, include_self=True):
            self.objs[id(s)] = label(s)
            if isinstance(s, Group):
                for x in (s.ln_solver, s.nl_solver):
                    self.objs[id(x)] = label(x)
        self.on, self.stack, self.counts, self.failed = False, [], {}, {}

    def start(self):
        self.on = True
        sys.setprofile(self.event)

    def stop(self):
        sys.setprofile(None)
        self.on = False

    def event(self, frame, what, arg):
        name = frame.f_code.co_name
        if name not in self.methods:
            return
        if what == 'call':
            me = frame.f_locals.get('self')
            if id(me) not in self.objs or not isinstance(me, self.methods[name]):
                return
            back = frame.f_back
            if back.f_code.co_name == name and back.f_locals.get('self') is me:      # an inherited implementation
                return
            self.stack.append((frame, '%s.%s' % (self.objs[id(me)], name)))
            path = ','.join(n for f, n in self.stack)
            self.counts[path] = self.counts.get(path, 0) + 1
        elif what == 'return' and self.stack and self.stack[-1][0] is frame:
            path = ','.join(n for f, n in self.stack)
            if arg is None and frame.f_lasti >= 0 and not returned(frame):
                self.failed[path] = self.failed.get(path, 0) + 1
            self.stack.pop()


def returned(frame):
    import dis
    op = dis.opname[frame.f_code.co_code[frame.f_lasti]]
    return op.startswith('RETURN')


def label(obj):
    return getattr(obj, 'pathname', '<%s>' % type(obj).__name__)
