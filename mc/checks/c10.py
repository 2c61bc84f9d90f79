"""C10: recorders receive every iteration of their owner exactly once, in order, as immutable snapshots."""
from itertools import product, combinations
import copy
import io
import os
import re
import shutil
import sys
import tempfile
import warnings
import numpy as np

PID = 'C10'
LEVEL = 'model_checking'
RULE = ('complete product of group nestings to depth 4 x solver of every group (run once, Gauss-Seidel, with Aitken, Newton, Newton '
        'with line search) x driver (single, iterating, SLSQP, COBYLA, DOE, DOE with failing cases) x group that is finite '
        'differenced x sequences of run / run_once / gradient / check operations x recorders on every owner, own and shared; '
        'a component in every group observes each sweep independently of the recorders.  All lists of up to two include and '
        'two exclude patterns over a small name space x record options x owner x recorder class.')
ASSUMPTIONS = ['runs at the perturbed points of a finite difference are not iterations',
               'the initial evaluation of Newton and of the optimizers is not an iteration of theirs (it is not recorded by design)']
NOTE = 'all cases in the bounds are run; the oracle is the log of components inside the model'

SOLV = ['run', 'gs', 'ait', 'newton', 'newtonls']
DRV = ['once', 'iter', 'SLSQP', 'COBYLA', 'doe', 'doefail']
# chains and branches of groups; '' is root
TREES = {'0': [''], '1': ['', 'g'], '2': ['', 'g', 'g.h'], 'b': ['', 'g', 'k'], '3': ['', 'g', 'g.h', 'g.h.m'], 'bb': ['', 'g', 'g.h', 'g.k'], 'w': ['', 'g', 'k', 'k.h']}


def cases(tier):
    q = tier == 'quick'
    out = []
    for tree, gs in TREES.items():
        n = len(gs)
        pool = SOLV if n <= 3 else ['run', 'gs', 'newton']
        for sol in product(pool, repeat=n):
            for drv in DRV:
                if q and n > 2 and drv in ('COBYLA', 'doefail'):
                    continue
                if q and n == 4 and drv not in ('iter', 'SLSQP'):
                    continue
                if q and n >= 3 and drv == 'doe':
                    continue
                for own in ('own', 'all') if not (q and n == 4) else ('all',):
                    for fd in [None] + (gs if n <= 2 or not q else [gs[len(out) % n]]):
                        out.append(['N', tree, list(sol), drv, own, fd, 'rgr'])
    for ops in product('rogpt', repeat=3 if q else 4):
        if 'r' not in ops and 'o' not in ops:
            continue
        for drv in ('once', 'SLSQP', 'doe'):
            for tree, sol in (('2', ['run', 'gs', 'newton']), ('1', ['newtonls', 'ait'])):
                for fd in (None, '', 'g'):
                    if fd == '' and 'p' in ops:
                        continue    # not allowed
                    out.append(['N', tree, sol, drv, 'all', fd, ''.join(ops)])
    # patterns
    pats = PATS if not q else PATS[:8]
    lists = [[]] + [[p] for p in pats] + [list(c) for c in combinations(pats, 2)]
    for inc in lists:
        for exc in lists:
            for owner in ('driver', 'sub'):
                o = (len(out) * 5) % 8
                for opts in (range(8) if not q else sorted({1, o or 1, 7})):
                    out.append(['P', inc, exc, owner, opts, 'mem'])
            if len(inc) < 2 and len(exc) < 2:
                for kind in ('dump', 'csv', 'sqlite', 'hdf5'):
                    for opts in (1, 3, 7):
                        if q and kind in ('sqlite', 'hdf5') and inc != ['*'] and exc != ['*'] and opts != 7:
                            continue
                        out.append(['P', inc, exc, 'driver' if len(out) % 2 else 'sub', opts, kind])
    for fmt in ('dict', 'array'):
        for rd in (0, 1):
            for drv in ('once', 'SLSQP'):
                for seq in ('rg', 'rgg', 'rgrg', 'rgxg'):
                    out.append(['D', fmt, rd, drv, seq])
    for rm in (0, 1):
        for kind in ('mem', 'dump', 'csv'):
            out.append(['M', rm, kind])
    return out


PATS = ['*', 'y*', 'g.*', '*.y1', 'x', '?1', '[xy]*', 'y1', 'g.y2', '*2', '!x', 'Y1', '*.*.*', '[!x]', 'nomatch', 'g?y1']


def run(case, R):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        old = sys.stdout
        sys.stdout = io.StringIO()
        try:
            globals()['run_' + case[0].lower()](case, R)
        finally:
            sys.stdout = old
    R.state(case)
    R.trace()


class Clock(object):
    t = 0


def spy_class():
    from openmdao.recorders.base_recorder import BaseRecorder

    class Spy(BaseRecorder):
        """keeps deep copies of everything it is given"""
        def __init__(self, root_of=None):
            super(Spy, self).__init__()
            self._parallel = True
            self.options['record_params'] = True
            self.options['record_resids'] = True
            self.got = []
            self.derivs = []

        def record_metadata(self, group):
            pass

        def record_iteration(self, params, unknowns, resids, metadata):
            d = {}
            for k, vec in (('p', params), ('u', unknowns), ('r', resids)):
                d[k] = dict((n, copy.deepcopy(vec[n])) for n in vec)
            d['coord'] = copy.deepcopy(metadata['coord'])
            d['success'], d['msg'] = metadata['success'], metadata['msg']
            self.got.append(d)

        def record_derivatives(self, derivs, metadata):
            self.derivs.append((copy.deepcopy(derivs), copy.deepcopy(metadata['coord'])))
    return Spy


def fmt(coord):
    parts = []
    for name, it in zip(coord[1::2], coord[2::2]):
        parts += [name, '-'.join(str(i) for i in it)]
    return 'rank%d:' % coord[0] + '|'.join(parts)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
    return type(a) == type(b) and a == b


def build(tree, sols, log, clock, fail=None, lists=True):
    """every group holds a coupled pair a, b and a probe that runs last"""
    from openmdao.api import Problem, Group, Component, IndepVarComp, NLGaussSeidel, Newton, RunOnce, DirectSolver, AnalysisError
    from openmdao.solvers.backtracking import BackTracking

    class Pair(Component):
        def __init__(self, src, dst, k, ext):
            super(Pair, self).__init__()
            self.src, self.dst, self.k, self.ext = src, dst, k, ext
            self.add_param(src, np.zeros(2))
            if ext:
                self.add_param('x', 0.)
            self.add_output(dst, np.zeros(2))

        def solve_nonlinear(self, p, u, r):
            u[self.dst] = self.k * np.sin(p[self.src]) + 1. + (p['x'] if self.ext else 0.)
            if fail and self.ext and fail(float(p['x'])):
                raise AnalysisError('no result at %s' % p['x'])

        def linearize(self, p, u, r):
            J = {(self.dst, self.src): np.diag(self.k * np.cos(p[self.src]))}
            if self.ext:
                J[self.dst, 'x'] = np.ones((2, 1))
            return J

    class Probe(Component):
        def __init__(self, path):
            super(Probe, self).__init__()
            self.path = path
            self.group = None
            self.add_param('b', np.zeros(2))
            self.add_output('tick', 0, pass_by_obj=True)
            if lists:
                self.add_output('ticks', [0], pass_by_obj=True)

        def solve_nonlinear(self, p, u, r):
            clock.t += 1
            u['tick'] = clock.t
            if lists:
                u['ticks'][0] = clock.t     # changed in place
            g = self.group
            if g is not None:
                log.append((self.path, clock.t, dict((n, copy.deepcopy(g.unknowns[n])) for n in g.unknowns),
                            dict((n, copy.deepcopy(g.params[n])) for n in g.params)))

        def linearize(self, p, u, r):
            return {}
    prob = Problem(root=Group())
    groups, probes = {'': prob.root}, []
    paths = TREES[tree]
    for p in paths[1:]:
        par, _, name = p.rpartition('.')
        groups[p] = Group()
    # children go in before the probe of their parent so that the probe runs last
    prob.root.add('ind', IndepVarComp('x', 2.), promotes=['*'])

    def fill(path):
        g = groups[path]
        g.add('ca', Pair('b', 'a', .4, True), promotes=['x', 'a', 'b'])
        g.add('cb', Pair('a', 'b', .3, False), promotes=['a', 'b'])
        for p in paths:
            if p and p.rpartition('.')[0] == path:
                g.add(p.rpartition('.')[2], groups[p], promotes=['x'])
                fill(p)
        pr = Probe(path)
        probes.append(pr)
        g.add('probe', pr, promotes=['b', 'tick'] + ['ticks'] * lists)
        g.set_order(['ind'] * (path == '') + ['ca', 'cb'] + [p.rpartition('.')[2] for p in paths if p and p.rpartition('.')[0] == path] + ['probe'])
    fill('')
    for p, k in zip(paths, sols):
        g = groups[p]
        g.ln_solver = DirectSolver()
        if k == 'run':
            g.nl_solver = RunOnce()
        elif k in ('gs', 'ait'):
            s = g.nl_solver = NLGaussSeidel()
            s.options['use_aitken'] = k == 'ait'
            s.options['maxiter'] = 12
            s.options['atol'] = 1e-5
            s.options['iprint'] = -1
        else:
            s = g.nl_solver = Newton()
            s.options['maxiter'] = 5
            s.options['iprint'] = -1
            if k == 'newtonls':
                s.options['alpha'] = 1.5
                b = s.line_search = BackTracking()
                b.options['c'] = .9
                b.options['rho'] = .6
                b.options['maxiter'] = 3
                b.options['iprint'] = -1
    for pr in probes:
        pr.group = groups[pr.path]
    return prob, groups


class Fails(object):
    def __init__(self, xs):
        self.xs = xs

    def __call__(self, x):
        return any(abs(x - v) < 1e-9 for v in self.xs)


def driver(prob, kind, tmp):
    from openmdao.api import Driver, ScipyOptimizer
    from openmdao.drivers.fullfactorial_driver import FullFactorialDriver
    if kind == 'once':
        class D(Driver):
            def run(self, problem):
                self._problem = problem
                super(D, self).run(problem)
        d = D()
    elif kind == 'iter':
        class D(Driver):
            def run(self, problem):
                self._problem = problem
                for x in (1., 2., -1.):
                    self.set_desvar('x', x)
                    self.run_once(problem)
        d = D()
    elif kind in ('SLSQP', 'COBYLA'):
        d = ScipyOptimizer()
        d.options['optimizer'] = kind
        d.options['maxiter'] = 2 if kind == 'SLSQP' else 4
        d.options['disp'] = False
    else:
        d = FullFactorialDriver(num_levels=3)
    prob.driver = d
    d.add_desvar('x', lower=-1., upper=3.)
    d.add_objective('a', indices=[0])
    if kind == 'SLSQP':
        d.add_constraint('b', upper=50.)
    return d


def run_n(case, R):
    from openmdao.api import InMemoryRecorder
    _, tree, sols, drv, own, fd, ops = case
    log, clock = [], Clock()
    prob, groups = build(tree, sols, log, clock, Fails([1.]) if drv == 'doefail' else None)
    paths = TREES[tree]
    if fd is not None:
        groups[fd].deriv_options['type'] = 'fd'
    d = driver(prob, drv, None)
    Spy = spy_class()
    owners = {'D': d.recorders}
    for p in paths:
        owners[p] = groups[p].nl_solver.recorders
    spies, mems = {}, {}
    shared = None
    if own == 'all':
        shared = InMemoryRecorder()
        shared.options['record_params'] = True
    for o in owners:
        target = d if o == 'D' else groups[o].nl_solver
        s = spies[o] = Spy()
        target.add_recorder(s)
        m = mems[o] = InMemoryRecorder()
        m.options['record_params'] = True
        m.options['record_resids'] = True
        target.add_recorder(m)
        if shared is not None:
            target.add_recorder(shared)
    prob.setup(check=False)
    # every execution of the model, as told by the root
    solves = []
    infd = [0]
    orig = prob.root.solve_nonlinear

    def solve(*a, **k):
        t0 = clock.t
        ok = 0
        try:
            orig(*a, **k)
            ok = 1
        finally:
            if not infd[0]:
                solves.append((t0, clock.t, ok))
    prob.root.solve_nonlinear = solve
    fdticks = []        # clock intervals that belong to derivatives

    def wrap(target):
        orig_fd = target.fd_jacobian

        def fd_jacobian(*a, **k):
            t0, infd[0] = clock.t, infd[0] + 1
            try:
                return orig_fd(*a, **k)
            finally:
                infd[0] -= 1
                fdticks.append((t0, clock.t))
        target.fd_jacobian = fd_jacobian
    for target in prob.root.subsystems(recurse=True, include_self=True):
        wrap(target)
    driven = []         # the executions of the model that are iterations of the driver
    for op in ops:
        n0, t0 = len(solves), clock.t
        counts = dict((o, len(s.got)) for o, s in spies.items())
        if op == 'r':
            prob.run()
            new = solves[n0:]
            driven += new[1:] if drv in ('SLSQP', 'COBYLA') else new
            if drv == 'iter':
                R.check(len(new) == 3, 'harness', str(new))
            if drv in ('doe', 'doefail'):
                R.check(len(new) == 3, 'doe-cases', str(new))
        elif op == 'o':
            prob.run_once()
            driven += solves[n0:]
        else:
            ran = [x for x in solves]
            if op == 'g':
                prob.calc_gradient(['x'], ['a'])
            elif op == 'p':
                prob.check_partial_derivatives(out_stream=None)
            else:
                prob.check_total_derivatives(out_stream=None)
            # a model that has not been run yet is run by the checks
            first = op in 'pt' and not ran
            R.check(len(solves) - len(ran) <= first, 'derivatives-run-the-model', op)
            driven += solves[n0:]
            R.check(len(spies['D'].got) - counts['D'] <= first, 'driver-records-derivative-run', op)
        R.step()
    drop = lambda t: any(a < t <= b for a, b in fdticks)
    ticks = dict((p, []) for p in paths)
    snap = {}
    for p, t, u, pv in log:
        if not drop(t):
            ticks[p].append(t)
        snap[p, t] = (u, pv)
    # --- the driver: one case per execution, with the values at its end
    got = spies['D'].got
    want = [s for s in driven if s[2] or drv == 'doefail']
    R.check(len(got) == len(want), 'driver-cases', '%d of %d' % (len(got), len(want)))
    for c, (t0, t1, ok) in zip(got, want):
        R.check(c['success'] == ok, 'driver-success-flag', '%s %s' % (c['success'], ok))
        R.check(bool(c['msg']) != bool(ok), 'driver-message', c['msg'])
        if ok:
            R.check(c['u']['tick'] == t1, 'driver-case-order', '%s %s' % (c['u']['tick'], t1))
        R.step()
    # --- solvers
    for p, k in zip(paths, sols):
        have = [c['u']['tick'] for c in spies[p].got]
        have = [t for t in have if not drop(t)]
        stray = [c['u']['tick'] for c in spies[p].got if drop(c['u']['tick'])]
        R.check(not stray, 'solver-records-derivative-run', lambda: '%s %s' % (p, stray))
        w = ticks[p]
        if drv == 'doefail':
            R.check(set(have) <= set(w) and have == sorted(have) and len(set(have)) == len(have), 'solver-cases', '%s %s' % (have, w))
        elif k in ('newton', 'newtonls'):
            R.check(have == sorted(set(have)) and set(have) <= set(w), 'solver-cases', lambda: '%r: %s of %s' % (p, have, w))
            par = p.rpartition('.')[0]
            first = starts(p, paths, ticks, solves, drop)
            R.check(sorted(set(w) - first) == have, 'solver-cases', lambda: '%r: %s of %s, initial %s' % (p, have, w, first))
        else:
            R.check(have == w, 'solver-cases', lambda: '%r: %s of %s' % (p, have, w))
        for c in spies[p].got:
            t = c['u']['tick']
            if (p, t) not in snap:
                R.fail('solver-values', 'no sweep %s' % t)
                continue
            u, pv = snap[p, t]
            for n in u:
                if n not in ('ticks', 'tick'):
                    R.check(same(c['u'][n], u[n]), 'solver-values', lambda: '%s %s: %s is not %s' % (p, n, c['u'][n], u[n]))
            R.check(c['u']['ticks'] == [t], 'solver-values', '')
            if k in ('run', 'gs', 'ait'):
                for n in pv:
                    R.check(same(c['p'][n], pv[n]), 'solver-params', lambda: '%s %s: %s is not %s' % (p, n, c['p'][n], pv[n]))
        R.step(len(have))
    # --- coordinates: unique, and they name driver and systems
    seen = {}
    for o, s in spies.items():
        names = [] if o == 'D' else ['root'] + [x for x in o.split('.') if x]
        for c in s.got:
            f = fmt(c['coord'])
            R.check(f not in seen, 'duplicate-coordinate', lambda: '%s of %s and %s' % (f, o, seen.get(f)))
            seen[f] = o
            R.check(c['coord'][0] == 0, 'coordinate-rank', f)
            t = c['u']['tick'] if o == 'D' else None
            if o != 'D' and drop(c['u']['tick']):
                continue
            R.check([str(x) for x in c['coord'][3::2]] == names, 'coordinate-names', lambda: '%s for %r' % (f, o))
            dn = c['coord'][1]
            R.check(dn in ('Driver', drv), 'coordinate-driver', f)
    # --- prefixes: a case belongs to the iteration of its parent that was going on
    for p in paths:
        par = p.rpartition('.')[0]
        up = 'D' if p == '' else par
        byt = dict((c['u']['tick'], c['coord']) for c in spies[up].got)
        if drv == 'doefail' and up == 'D':
            continue
        for c in spies[p].got:
            t = c['u']['tick']
            if drop(t):
                continue
            if up == 'D':
                enc = [s for s in driven if s[0] < t <= s[1]]
                if not enc:
                    continue
                key = enc[0][1]
            else:
                key = min([x for x in ticks[par] if x > t] or [None])
            if key in byt:
                R.check(c['coord'][:len(byt[key])] == byt[key], 'coordinate-of-parent', lambda: '%s under %s' % (fmt(c['coord']), fmt(byt[key])))
    # --- the in-memory recorders hold what went through, unchanged
    for o in owners:
        check_mem(R, mems[o].iters, spies[o].got, True)
    if shared is not None:
        allc = sorted((c for o in spies for c in spies[o].got), key=lambda c: fmt(c['coord']))
        mem = sorted(shared.iters, key=lambda c: c['iter'])
        check_mem(R, mem, allc, False)
        st = [c['timestamp'] for c in shared.iters]
        R.check(st == sorted(st), 'shared-order', '')
    if fd is not None and any(o in 'gpt' for o in ops):
        R.note('finite-differenced')


def starts(p, paths, ticks, solves, drop):
    """the clock of the first sweep of every solve of group p"""
    if p == '':
        begin = [s[0] for s in solves]
    else:
        # it is solved once in every sweep of its parent: from the end of the previous sweep (or the start of the run)
        par = p.rpartition('.')[0]
        begin = [0] + ticks[par]
        begin += [s[0] for s in solves]
    out = set()
    for b in begin:
        later = [t for t in ticks[p] if t > b]
        if later:
            out.add(min(later))
    return out


def check_mem(R, mem, got, res):
    R.check(len(mem) == len(got), 'mem-cases', '%d %d' % (len(mem), len(got)))
    for m, c in zip(mem, got):
        R.check(m['iter'] == fmt(c['coord']), 'mem-coordinate', '%s %s' % (m['iter'], c['coord']))
        R.check(m['success'] == c['success'] and m['msg'] == c['msg'], 'mem-success', '')
        for k, kk in (('unknowns', 'u'), ('params', 'p')) + ((('resids', 'r'),) if res else ()):
            R.check(set(m[k]) == set(c[kk]), 'mem-names', lambda: '%s %s' % (sorted(m[k]), sorted(c[kk])))
            for n in c[kk]:
                R.check(same(m[k].get(n), c[kk][n]), 'mem-values-changed', lambda: '%s %s %s: %s was %s' % (m['iter'], k, n, m[k].get(n), c[kk][n]))


# ------------------------------------------------------------------ patterns
def match(pat, s):
    """shell pattern, written out: * ? [..] [!..]"""
    if not pat:
        return not s
    if pat[0] == '*':
        return any(match(pat[1:], s[i:]) for i in range(len(s) + 1))
    if not s:
        return False
    if pat[0] == '?':
        return match(pat[1:], s[1:])
    if pat[0] == '[' and ']' in pat[2:]:
        e = pat.index(']', 2)
        body = pat[1:e]
        neg = body[0] == '!'
        if neg:
            body = body[1:]
        return (s[0] in body) != neg and match(pat[e + 1:], s[1:])
    return pat[0] == s[0] and match(pat[1:], s[1:])


def small(extra=()):
    from openmdao.api import Problem, Group, IndepVarComp, ExecComp
    prob = Problem(root=Group())
    r = prob.root
    r.add('ind', IndepVarComp('x', 2.), promotes=['*'])
    g = r.add('g', Group(), promotes=['x', 'y1'])
    g.add('c1', ExecComp('y1=2.*x'), promotes=['*'])
    g.add('c2', ExecComp(['y2=y1+x', 'z=y1*numpy.ones(2)'], z=np.zeros(2)), promotes=['*'])
    r.add('c3', ExecComp('w2=y1-3.'), promotes=['*'])
    return prob, g


VAL = dict(x=2., y1=4., y2=6., w2=1., z=np.array([4., 4.]))


def run_p(case, R):
    from openmdao.api import Driver, InMemoryRecorder
    from openmdao.recorders.sqlite_recorder import SqliteRecorder
    from openmdao.recorders.hdf5_recorder import HDF5Recorder
    from openmdao.recorders.dump_recorder import DumpRecorder
    from openmdao.recorders.csv_recorder import CsvRecorder
    from openmdao.recorders.case_reader import CaseReader
    _, inc, exc, owner, opts, kind = case
    prob, g = small()
    tmp = None
    buf = io.StringIO()
    try:
        if kind == 'mem':
            rec = InMemoryRecorder()
        elif kind == 'dump':
            rec = DumpRecorder(buf)
        elif kind == 'csv':
            rec = CsvRecorder(buf)
        else:
            tmp = tempfile.mkdtemp()
            fn = os.path.join(tmp, 'f.db')
            rec = SqliteRecorder(fn) if kind == 'sqlite' else HDF5Recorder(fn)
            rec.options['record_metadata'] = False
        rec.options['includes'] = inc
        rec.options['excludes'] = exc
        rec.options['record_unknowns'] = bool(opts & 1)
        rec.options['record_params'] = bool(opts & 2)
        rec.options['record_resids'] = bool(opts & 4)
        if kind == 'csv':
            rec.options['record_derivs'] = False
        (prob.driver if owner == 'driver' else g.nl_solver).add_recorder(rec)
        prob.setup(check=False)
        prob.run()
        prob.run()
        if kind in ('sqlite', 'hdf5'):
            prob.cleanup()
            if owner != 'driver':
                rec.close()
        R.step(2)
        keep = lambda n: any(match(i, n) for i in inc) and not any(match(e, n) for e in exc)
        un = ['x', 'y1', 'g.y2', 'g.z', 'w2'] if owner == 'driver' else ['y1', 'y2', 'z']
        # the parameter vector of the owner leaves out what is connected deeper down
        pn = ['g.c1.x', 'g.c2.x', 'c3.y1'] if owner == 'driver' else ['c1.x', 'c2.y1', 'c2.x']
        un, pn = [n for n in un if keep(n)], [n for n in pn if keep(n)]
        v = lambda n: VAL[n.split('.')[-1]]
        want = {}
        if opts & 1:
            want['unknowns'] = dict((n, v(n)) for n in un)
        if opts & 2:
            want['params'] = dict((n, v(n)) for n in pn)
        if opts & 4:
            want['resids'] = dict((n, 0. * v(n)) for n in un)
        if kind == 'mem':
            its = rec.iters
            R.check(len(its) == 2, 'cases', str(len(its)))
            for it in its:
                have = dict((k, it[k]) for k in ('unknowns', 'params', 'resids') if k in it)
                compare(R, have, want, kind)
        elif kind == 'dump':
            its = parse_dump(buf.getvalue().split('Metadata:')[-1])
            R.check(len(its) == 2, 'cases', str(len(its)))
            for it in its:
                R.check(it.pop('ok') == 'yes', 'dump-success', '')
                compare(R, it, dict((k, dict((n, str(x)) for n, x in d.items())) for k, d in want.items()), kind)
        elif kind == 'csv':
            import csv
            rows = list(csv.reader(io.StringIO(buf.getvalue())))
            R.check(len(rows) == 3, 'cases', str(rows))
            names = ['success'] + sum([sorted(want.get(k, {})) for k in ('params', 'unknowns', 'resids')], [])
            R.check(sorted(rows[0]) == sorted(names), 'csv-names', '%s %s' % (rows[0], names))
            np_, nu = len(want.get('params', {})), len(want.get('unknowns', {}))
            groups = [rows[0][1:1 + np_], rows[0][1 + np_:1 + np_ + nu], rows[0][1 + np_ + nu:]]
            for row in rows[1:]:
                R.check(row[0] == '1' and len(row) == len(rows[0]), 'csv-row', str(row))
                i = 1
                for k, ns in zip(('params', 'unknowns', 'resids'), groups):
                    R.check(set(ns) == set(want.get(k, {})), 'csv-order', str(rows[0]))
                    for n in ns:
                        x = want.get(k, {}).get(n, np.nan)
                        R.check(np.array_equal(np.array([float(s) for s in row[i].split(',')]), np.ravel(x)), 'csv-value', '%s %s' % (n, row[i]))
                        i += 1
        else:
            cr = CaseReader(fn)
            R.check(cr.num_cases == 2, 'cases', str(cr.num_cases))
            for k in range(cr.num_cases):
                c = cr.get_case(k)
                have = dict((a, b) for a, b in (('unknowns', c.unknowns), ('params', c.parameters), ('resids', c.resids)) if b is not None)
                compare(R, have, want, kind)
    finally:
        if tmp:
            shutil.rmtree(tmp)


def compare(R, have, want, kind):
    R.check(set(have) == set(want), kind + '-sections', lambda: '%s %s' % (sorted(have), sorted(want)))
    for k in want:
        h = have.get(k, {})
        R.check(set(h) == set(want[k]), kind + '-names', lambda: '%s %s instead of %s' % (k, sorted(h), sorted(want[k])))
        for n in want[k]:
            if n in h:
                ok = h[n] == want[k][n] if isinstance(want[k][n], str) else np.array_equal(h[n], want[k][n])
                R.check(ok, kind + '-values', lambda: '%s %s %s' % (n, h[n], want[k][n]))


def parse_dump(text):
    out, cur, sec = [], None, None
    for ln in text.splitlines():
        if ln.startswith('Iteration Coordinate:'):
            cur = {'ok': None}
            out.append(cur)
        elif cur is None:
            continue
        elif ln.startswith('Iteration succeeded:'):
            cur['ok'] = ln.split(':')[1].strip()
        elif ln in ('Params:', 'Unknowns:', 'Resids:'):
            sec = cur.setdefault(ln[:-1].lower(), {})
        elif ln.startswith('  '):
            n, _, v = ln.strip().partition(': ')
            sec[n] = v
    return out


# ------------------------------------------------------------------ derivatives
def run_d(case, R):
    from openmdao.api import InMemoryRecorder
    _, fmt_, rd, drv, seq = case
    log, clock = [], Clock()
    prob, groups = build('1', ['run', 'gs'], log, clock)
    d = driver(prob, drv, None)
    rec = InMemoryRecorder()
    rec.options['record_derivs'] = bool(rd)
    spy = spy_class()()
    d.add_recorder(rec)
    d.add_recorder(spy)
    prob.setup(check=False)
    want = []
    orig = prob.calc_gradient
    for op in seq:
        if op == 'r' or drv == 'SLSQP':
            n0 = len(spy.derivs)
            prob.run()
            R.check((len(spy.derivs) > n0) == (drv == 'SLSQP'), 'derivs-given', '')
        elif op == 'x':
            prob['x'] = .5
            prob.run_once()
        else:
            n0 = len(spy.derivs)
            J = d.calc_gradient(['x'], ['a', 'b'], return_format=fmt_)
            keep = copy.deepcopy(J)
            R.check(len(spy.derivs) == n0 + 1 and eq_j(spy.derivs[-1][0], keep), 'derivs-given', '')
            # the caller goes on using what it got
            if fmt_ == 'dict':
                for o in J:
                    for i in J[o]:
                        J[o][i] *= 0.
            else:
                J *= 0.
        R.step()
    if rd:
        R.check(len(rec.deriv_iters) == len(spy.derivs), 'derivs-count', '%d %d' % (len(rec.deriv_iters), len(spy.derivs)))
        for a, b in zip(rec.deriv_iters, spy.derivs):
            R.check(eq_j(a['Derivatives'], b[0]), 'derivs-changed', '%s %s' % (a['Derivatives'], b[0]))
    else:
        R.check(not rec.deriv_iters, 'derivs-not-asked-for', '')


def eq_j(a, b):
    if isinstance(a, dict) != isinstance(b, dict):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(list(a[k]) == list(b[k]) and all(np.array_equal(a[k][i], b[k][i]) for i in a[k]) for k in a)
    return np.array_equal(a, b)


def run_m(case, R):
    from openmdao.api import InMemoryRecorder
    from openmdao.recorders.dump_recorder import DumpRecorder
    from openmdao.recorders.csv_recorder import CsvRecorder
    _, rm, kind = case
    prob, g = small()
    buf = io.StringIO()
    rec = InMemoryRecorder() if kind == 'mem' else DumpRecorder(buf) if kind == 'dump' else CsvRecorder(buf)
    if kind != 'csv':
        rec.options['record_metadata'] = bool(rm)
    prob.driver.add_recorder(rec)
    prob.setup(check=False)
    prob.run()
    R.step()
    if kind == 'mem':
        R.check(bool(rec.meta) == bool(rm), 'metadata', str(rec.meta)[:100])
        if rm:
            R.check(set(rec.meta['unknowns']) == {'x', 'y1', 'g.y2', 'g.z', 'w2'}, 'metadata-names', str(list(rec.meta['unknowns'])))
            R.check(set(rec.meta['params']) == {'g.c1.x', 'g.c2.x', 'c3.y1'}, 'metadata-names', str(list(rec.meta['params'])))
    elif kind == 'dump':
        R.check(('Metadata:' in buf.getvalue()) == bool(rm), 'metadata', buf.getvalue()[:100])
