"""C08: a nonlinear solver reports success only at a converged solution."""
from itertools import product
import io
import sys
import warnings
import numpy as np
from mc.models import flat

PID = 'C08'
LEVEL = 'model_checking'
RULE = ('complete product of coupled systems (2-3 disciplines; contracting, diverging, oscillating, nonlinear, '
        'implicit, without a solution, turning into infinity or NaN at the k-th call) x solver (Gauss-Seidel with and '
        'without Aitken, Newton x linear solver x line search x over-relaxation x subsystem solves, Brent x bracket, '
        'nested pairs) x iteration limit 0..k x tolerance set x initial guess; every iteration is captured and the '
        'convergence criterion, the Armijo condition and the iteration bound are recomputed by the reference.')
ASSUMPTIONS = ['the printed FAILED message or AnalysisError is what "signals failure"']
NOTE = 'all runs in the bounds are executed; every reported iterate is judged by a numpy reference of the system'


# ------------------------------------------------------------------ systems
class Sys(object):
    """n coupled outputs; row i: u_i = f_i(u, x)  (or a state with residual r_i(u, x))"""
    def __init__(self, n, f, jac, uses, root=None, res=None, resj=None, order=None):
        self.n, self.f, self.jac, self.uses, self.root = n, f, jac, uses, root
        self.res, self.resj = res or {}, resj or {}
        self.order = order or list(range(n))

    def resid(self, u):
        r = np.array([self.res[i](u) if i in self.res else self.f[i](u) - u[i] for i in range(self.n)])
        return r

    def J(self, u):
        A = np.zeros((self.n, self.n))
        for i in range(self.n):
            if i in self.resj:
                A[i] = self.resj[i](u)
            else:
                A[i] = self.jac[i](u)
                A[i, i] -= 1.
        return A


def lin(G, b):
    G, b = np.array(G, dtype=float), np.array(b, dtype=float)
    n = len(b)
    return Sys(n, [lambda u, i=i: G[i].dot(u) + b[i] for i in range(n)], [lambda u, i=i: G[i].copy() for i in range(n)],
               [[j for j in range(n) if G[i, j]] for i in range(n)],
               np.linalg.solve(np.eye(n) - G, b) if abs(np.linalg.det(np.eye(n) - G)) > 1e-9 else None)


def newton_root(s, u, k=60):
    for _ in range(k):
        u = u - np.linalg.solve(s.J(u), s.resid(u))
    return u


def systems():
    S = {}
    S['contract'] = lin([[0, .5], [.25, 0]], [1., 2.])
    S['slow'] = lin([[0, .95], [.95, 0]], [1., -1.])
    S['osc'] = lin([[0, 1.], [-1., 0]], [1., 3.])           # Gauss-Seidel alternates for ever
    S['diverge'] = lin([[0, 2.], [1.5, 0]], [1., 1.])
    S['explode'] = lin([[0, 1e4], [1e4, 0]], [1., 1.])
    S['chain'] = lin([[0, 0], [.5, 0]], [1., 2.])            # no cycle
    S['three'] = lin([[0, .3, .2], [.5, 0, .1], [.25, .4, 0]], [1., -1., 2.])
    S['ring'] = lin([[0, 0, .5], [.5, 0, 0], [0, -.5, 0]], [1., 2., 3.])
    S['trivial'] = lin([[0, .5], [.5, 0]], [0., 0.])         # solved by the guess zero
    s = Sys(2, [lambda u: np.cos(u[1]), lambda u: .5 * u[0] + .2], [lambda u: np.array([0., -np.sin(u[1])]), lambda u: np.array([.5, 0.])],
            [[1], [0]])
    s.root = newton_root(s, np.array([.7, .5]))
    S['cos'] = s
    s = Sys(2, [lambda u: 1. + .1 * u[1] ** 2, lambda u: .2 * u[0] + .3 * np.sin(u[0])],
            [lambda u: np.array([0., .2 * u[1]]), lambda u: np.array([.2 + .3 * np.cos(u[0]), 0.])], [[1], [0]])
    s.root = newton_root(s, np.array([1., .5]))
    S['mild'] = s
    # u0 = u1**2 + 1 + u0-ish: no real solution
    S['none'] = Sys(2, [lambda u: u[1] ** 2 + 2., lambda u: 1. * u[0]], [lambda u: np.array([0., 2. * u[1]]), lambda u: np.array([1., 0.])],
                    [[1], [0]])
    # implicit state: z**3 + z = .5 y + 3
    s = Sys(2, [None, lambda u: .4 * u[0] - 1.], [None, lambda u: np.array([.4, 0.])], [[0, 1], [0]],
            res={0: lambda u: u[0] ** 3 + u[0] - .5 * u[1] - 3.}, resj={0: lambda u: np.array([3. * u[0] ** 2 + 1., -.5])})
    s.root = newton_root(s, np.array([1., -1.]))
    S['implicit'] = s
    # steep: full Newton steps overshoot, the line search has to cut
    s = Sys(2, [None, lambda u: .1 * u[0]], [None, lambda u: np.array([.1, 0.])], [[0, 1], [0]],
            res={0: lambda u: np.arctan(u[0]) - .05 * u[1]}, resj={0: lambda u: np.array([1. / (1. + u[0] ** 2), -.05])})
    s.root = np.zeros(2)
    S['steep'] = s
    for bad in ('inf', 'nan'):
        for k in (1, 2, 4):
            s = lin([[0, .5], [.25, 0]], [1., 2.])
            s.bad = (float(bad), k)
            S['%s%d' % (bad, k)] = s
    return S


SYS = systems()
GUESS = [0., 1., -2.5]
TOL = {'d': {}, 'a': dict(atol=1e-8, rtol=0., utol=0.), 'r': dict(atol=0., rtol=1e-3, utol=0.), 'u': dict(atol=0., rtol=0., utol=1e-4),
       'l': dict(atol=.5, rtol=0., utol=0.), 'z': dict(atol=0., rtol=0., utol=0.)}


def cases(tier):
    q = tier == 'quick'
    out = []
    for s in SYS:
        for aitken in (0, 1):
            for mi in (1, 2, 3, 4, 5, 6, 8, 12, 100):
                for tol in TOL:
                    if s == 'implicit' and aitken:
                        continue
                    for g in range(len(GUESS)):
                        out.append(['G', s, aitken, mi, tol, g])
    for s in SYS:
        for ln in ('direct', 'gmres', 'lngs'):
            for ls in (None, (1, .5, .5), (3, .5, .5), (5, .25, .1), (0, .5, .5)):
                for mi in (0, 1, 2, 3, 4, 6, 20):
                    for tol in TOL:
                        if q and ln != 'direct' and (ls or tol in 'lz'):
                            continue
                        for sub in (0, 1):
                            for al in (1., .5):
                                if q and al != 1. and (ls or ln != 'direct' or tol in 'lz'):
                                    continue
                                out.append(['N', s, ln, ls, mi, tol, sub, al, (len(out) * 7) % 3 if q and ls else 0])
                                if not (q and ls):
                                    out.append(['N', s, ln, ls, mi, tol, sub, al, 1])
                                    out.append(['N', s, ln, ls, mi, tol, sub, al, 2])
    for fn in BRENT:
        for br in range(len(BRENT[fn][2])):
            for how in ('opt', 'var', 'lovar'):
                for mi in (0, 1, 2, 3, 5, 8, 100):
                    for shape in ('s', 'a'):
                        for where in ('root', 'sub'):
                            out.append(['B', fn, br, how, mi, shape, where])
    # nesting: the same system split in every way over an outer and an inner group
    for s in ('contract', 'three', 'ring', 'cos', 'mild', 'implicit', 'chain'):
        n = SYS[s].n
        splits = [x for x in subsets(range(n)) if len(x) >= 1]
        for sp in splits:
            for outer in ('gs', 'ait', 'newton', 'newtonns'):
                for inner in ('gs', 'newton', 'run', 'ait'):
                    if s == 'implicit' and ('ait' in (outer, inner) or outer == 'newtonns' and inner != 'run' and 0):
                        continue
                    for g in range(3):
                        out.append(['T', s, list(sp), outer, inner, g])
    # residuals are those of the values that were left
    for s in SYS:
        for sol in ('run', 'gs', 'newton'):
            for mi in (1, 2, 3, 5):
                if sol == 'run' and mi > 1 or s == 'chain' and sol == 'run':
                    continue
                for g in range(len(GUESS)):
                    for sp in (0, 1):
                        out.append(['R', s, sol, mi, g, sp])
    # a Newton step on a linear system with units in and around it is exact
    for un in product(range(4), repeat=4):
        for ln in ('direct', 'gmres', 'lngs'):
            for lay in range(4):
                if q and (sum(un) + lay) % 2 and ln != 'gmres':
                    continue
                out.append(['U', list(un), ln, lay])
    return out


def subsets(it):
    it = list(it)
    return [[it[k] for k in range(len(it)) if m >> k & 1] for m in range(1, 2 ** len(it))]


def run(case, R):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            globals()['run_' + case[0].lower()](case, R)
    R.state(case)
    R.trace()


# ------------------------------------------------------------------ building
class BadValue(Exception):
    pass


def comp(s, i, calls, inner_solve):
    from openmdao.api import Component
    ins = [j for j in s.uses[i] if j != i]

    class C(Component):
        def __init__(self):
            super(C, self).__init__()
            for j in ins:
                self.add_param('u%d' % j, 0.)
            if i in s.res:
                self.add_state('u%d' % i, 0.)
            else:
                self.add_output('u%d' % i, 0.)

        def vec(self, p, u):
            v = np.zeros(s.n)
            for j in ins:
                v[j] = p['u%d' % j]
            v[i] = u['u%d' % i]
            return v

        def solve_nonlinear(self, p, u, r):
            calls.append(i)
            if i in s.res:
                if inner_solve:
                    v = self.vec(p, u)
                    for _ in range(60):
                        d = s.res[i](v) / s.resj[i](v)[i]
                        v[i] -= d
                        if abs(d) < 1e-15:
                            break
                    u['u%d' % i] = v[i]
                return
            v = s.f[i](self.vec(p, u))
            bad = getattr(s, 'bad', None)
            if bad and i == 1 and calls.count(1) >= bad[1]:
                v = bad[0]
            u['u%d' % i] = v

        def apply_nonlinear(self, p, u, r):
            if i in s.res:
                r['u%d' % i] = s.res[i](self.vec(p, u))
            else:
                v = u['u%d' % i]
                n = len(calls)
                save = float(v)
                # explicit output: the residual of the supplied equation
                bad = getattr(s, 'bad', None)
                f = s.f[i](self.vec(p, u))
                if bad and i == 1 and n and calls.count(1) >= bad[1]:
                    f = bad[0]
                r['u%d' % i] = f - save

        def linearize(self, p, u, r):
            v = self.vec(p, u)
            g = s.resj[i](v) if i in s.res else s.jac[i](v)
            J = {}
            for j in ins:
                J['u%d' % i, 'u%d' % j] = g[j]
            if i in s.res:
                J['u%d' % i, 'u%d' % i] = g[i]
            return J
    return C()


def snapper():
    from openmdao.recorders.base_recorder import BaseRecorder

    class Snap(BaseRecorder):
        def __init__(self):
            super(Snap, self).__init__()
            self.snaps = []
            self._parallel = True

        def record_metadata(self, group):
            pass

        def record_derivatives(self, d, m):
            pass

        def record_iteration(self, params, unknowns, resids, metadata):
            self.snaps.append(dict((k, np.array(unknowns[k], dtype=float)) for k in unknowns))
    return Snap()


def model(s, calls, inner_solve=True, split=None):
    """everything promoted into one group; components of `split` in a subgroup"""
    from openmdao.api import Problem, Group
    prob = Problem(root=Group())
    root = prob.root
    sub = None
    for i in s.order:
        c = comp(s, i, calls, inner_solve)
        if split and i in split:
            if sub is None:
                sub = root.add('g', Group(), promotes=['*'])
            sub.add('c%d' % i, c, promotes=['*'])
        else:
            root.add('c%d' % i, c, promotes=['*'])
    return prob, sub


def go(prob, names, guess):
    """run, returning (AnalysisError?, printed)"""
    from openmdao.core.system import AnalysisError
    for n in names:
        prob[n] = guess
    out = sys.stdout
    sys.stdout = buf = io.StringIO()
    err = None
    try:
        prob.run()
    except AnalysisError as e:
        err = e
    finally:
        sys.stdout = out
    return err, buf.getvalue()


def fails(norm, base, du, tol, slack=0.):
    """criterion not met (strictly, beyond rounding), slack shifts the thresholds"""
    a = tol['atol'] * (1 + slack * 1e-6) + slack * 1e-15
    return not (norm <= a or (np.isfinite(norm) and np.isfinite(base) and base > 0 and norm / base <= tol['rtol'] * (1 + slack * 1e-6) + slack * 1e-16)
                or du <= tol['utol'] * (1 + slack * 1e-6) + slack * 1e-16)


def tolof(opts, tol):
    t = dict((k, opts[k]) for k in ('atol', 'rtol', 'utol'))
    return t


def pair(s, make, names, guess, R):
    """the same run with and without err_on_maxiter; returns (failed, prob, calls, extra)"""
    res = []
    for err in (True, False):
        calls = []
        prob, solver, extra = make(calls, err)
        e, text = go(prob, names, guess)
        printed = 'FAILED' in text
        failed = e is not None if err else printed
        res.append((failed, prob, calls, extra, [flat(prob[n]).copy() for n in names]))
        R.step()
        if not err:
            R.check(e is None, 'raised-without-err_on_maxiter', str(e))
        else:
            R.check(failed == printed, 'message-disagrees-with-exception', '%s %s' % (failed, text))
    R.check(res[0][0] == res[1][0], 'failure-depends-on-err_on_maxiter', '%s %s' % (res[0][0], res[1][0]))
    same = all(np.array_equal(a, b, equal_nan=True) for a, b in zip(res[0][4], res[1][4]))
    R.check(same and res[0][2] == res[1][2], 'run-depends-on-err_on_maxiter', '%s %s' % (res[0][4], res[1][4]))
    return res[0][:4]


def vecs(snaps, n):
    return [np.array([float(d['u%d' % i]) for i in range(n)]) for d in snaps]


def badnorm(s, u, calls_done):
    r = s.resid(u)
    bad = getattr(s, 'bad', None)
    if bad and calls_done >= bad[1]:
        r = r.copy()
        r[1] = bad[0] - u[1]
    return float(np.sqrt((r * r).sum()))


def run_g(case, R):
    from openmdao.api import NLGaussSeidel, DirectSolver
    _, name, aitken, mi, tol, g = case
    s = SYS[name]
    names = ['u%d' % i for i in range(s.n)]

    def make(calls, err):
        prob, _ = model(s, calls)
        sol = prob.root.nl_solver = NLGaussSeidel()
        prob.root.ln_solver = DirectSolver()
        for k, v in TOL[tol].items():
            sol.options[k] = v
        sol.options['maxiter'] = mi
        sol.options['use_aitken'] = bool(aitken)
        if err:
            sol.options['err_on_maxiter'] = True
        rec = snapper()
        sol.add_recorder(rec)
        prob.setup(check=False)
        return prob, sol, (rec, dict((k, sol.options[k]) for k in ('atol', 'rtol', 'utol')))
    if mi == 1:     # without err_on_maxiter a single sweep is not judged at all
        calls = []
        prob, sol, (rec, t) = make(calls, True)
        e, text = go(prob, names, GUESS[g])
        failed = e is not None
    else:
        failed, prob, calls, (rec, t) = pair(s, make, names, GUESS[g], R)
    sweeps = calls.count(0)
    R.check(all(calls.count(i) == sweeps for i in range(s.n)), 'gs:uneven-sweeps', str(calls))
    R.check(1 <= sweeps <= mi, 'gs:iteration-limit', '%d sweeps, limit %d' % (sweeps, mi))
    us = vecs(rec.snaps, s.n)
    R.check(len(us) == sweeps, 'gs:records', '%d %d' % (len(us), sweeps))
    final = np.array([float(prob[n]) for n in names])
    base = badnorm(s, us[0], 1)
    if not base > t['atol']:
        base = 1.
    # what is judged is the state after the last sweep; relaxation moves on only when that has not converged
    norm = badnorm(s, us[-1], sweeps)
    before = None
    if len(us) > 1:
        before = us[-2]
    du = np.inf if before is None else (np.linalg.norm(us[-1] - before) if not aitken else None)
    if aitken and before is not None:
        du = np.inf if t['utol'] < 1e-11 else None
    if du is not None:
        if not failed:
            R.check(not fails(norm, base, du, t, 1.), 'gs:success-not-converged', lambda: '%s norm %s base %s du %s tol %s' % (us, norm, base, du, t))
        else:
            R.check(fails(norm, base, du, t, -1.), 'gs:failure-but-converged', lambda: '%s norm %s base %s du %s tol %s' % (us, norm, base, du, t))
            R.check(sweeps == mi or not np.isfinite(norm), 'gs:gave-up-early', '%d of %d' % (sweeps, mi))
    elif not failed:
        # relaxed steps: bounded through the contraction of the last sweep
        R.check(not fails(norm, base, 0., t, 1.), 'gs:success-not-converged', '')
    if not failed:
        R.check(np.array_equal(final, us[-1]), 'gs:left-elsewhere', '%s %s' % (final, us[-1]))
        if tol == 'a' and s.root is not None and not hasattr(s, 'bad'):
            R.check(np.abs(final - s.root).max() < 1e-5, 'gs:wrong-solution', '%s expected %s' % (final, s.root))
        R.note('converged')
    if name in ('contract', 'chain', 'three', 'ring', 'cos', 'mild', 'trivial', 'implicit') and mi == 100 and tol not in 'z':
        R.check(not failed, 'gs:contracting-system-not-solved', '%s' % us[-3:])


def run_n(case, R):
    from openmdao.api import Newton, DirectSolver, ScipyGMRES, LinearGaussSeidel
    from openmdao.solvers.backtracking import BackTracking
    _, name, ln, ls, mi, tol, sub, al, g = case
    s = SYS[name]
    names = ['u%d' % i for i in range(s.n)]

    def make(calls, err):
        prob, _ = model(s, calls, inner_solve=bool(sub))
        sol = prob.root.nl_solver = Newton()
        for k, v in TOL[tol].items():
            sol.options[k] = v
        sol.options['maxiter'] = mi
        sol.options['alpha'] = al
        sol.options['solve_subsystems'] = bool(sub)
        if err:
            sol.options['err_on_maxiter'] = True
        L = {'direct': DirectSolver, 'gmres': ScipyGMRES, 'lngs': LinearGaussSeidel}[ln]()
        if ln == 'lngs':
            L.options['maxiter'] = 60
            L.options['atol'] = 1e-14
            L.options['rtol'] = 1e-14
            L.options['iprint'] = -1
        if ln == 'gmres':
            L.options['iprint'] = -1
            L.options['atol'] = 1e-14
        prob.root.ln_solver = L
        if ls:
            b = sol.line_search = BackTracking()
            b.options['maxiter'], b.options['rho'], b.options['c'] = ls
            b.options['solve_subsystems'] = bool(sub)
            b.options['iprint'] = -1
        rec = snapper()
        sol.add_recorder(rec)
        prob.setup(check=False)
        return prob, sol, (rec, dict((k, sol.options[k]) for k in ('atol', 'rtol', 'utol')), sol)
    failed, prob, calls, (rec, t, sol) = pair(s, make, names, GUESS[g], R)
    us = vecs(rec.snaps, s.n)
    lin_ok = ln != 'lngs' or name not in ('osc', 'diverge', 'explode', 'implicit', 'steep', 'none')      # linear Gauss-Seidel diverges on these
    final = np.array([float(prob[n]) for n in names])
    per = ls[0] + 1 if ls else 1
    iters = sol.iter_count
    R.check(iters <= mi, 'newton:iteration-limit', '%d of %d' % (iters, mi))
    R.check(len(us) <= iters * per and (ls or len(us) == iters), 'newton:evaluations', '%d evaluations, %d iterations' % (len(us), iters))
    sweeps = calls.count(1)
    R.check(sweeps == 1 + (len(us) if sub else 0), 'newton:sweeps', '%d sweeps, %d evaluations' % (sweeps, len(us)))
    bad = getattr(s, 'bad', None)
    # start: one sweep over the components
    start = np.full(s.n, GUESS[g])
    for i in range(s.n):
        if i in s.res:
            if sub:
                for _ in range(60):
                    start[i] -= s.res[i](start) / s.resj[i](start)[i]
        else:
            start[i] = bad[0] if bad and i == 1 and bad[1] <= 1 else s.f[i](start)
    base = badnorm(s, start, 1)
    done = lambda k: (1 + k) if sub else 1
    norm = badnorm(s, final, done(len(us)))
    R.check(np.array_equal(final, us[-1] if us else start, equal_nan=True) or np.allclose(final, us[-1] if us else start, equal_nan=True, rtol=1e-13),
            'newton:left-elsewhere', '%s %s' % (final, us[-1:]))
    if ls:
        du = min([np.linalg.norm(a - b) for a, b in zip([start] + us, us)] or [np.inf])
    else:
        prev = us[-2] if len(us) > 1 else start
        du = np.linalg.norm(us[-1] - prev) if us else np.inf
    if not failed:
        R.check(not fails(norm, base, du, t, 1.), 'newton:success-not-converged',
                lambda: '%s norm %s base %s du %s tol %s' % (us, norm, base, du, t))
        R.note('converged')
        if lin_ok and name != 'steep' and tol in 'ad' and s.root is not None and not hasattr(s, 'bad') and not (ls and (tol == 'd' or name == 'explode')):
            R.check(np.abs(final - s.root).max() < 1e-5, 'newton:wrong-solution', '%s expected %s' % (final, s.root))
    elif not ls:
        if not fails(norm, base, du, t, -1.):
            # converged: only the recorded defect may report this as failure
            R.check(iters == mi, 'newton:failure-but-converged', lambda: '%s norm %s base %s du %s tol %s' % (us, norm, base, du, t))
            R.fail('newton:failure-reported-when-converged-in-last-iteration', '%d iterations' % iters)
        else:
            R.check(iters == mi or not np.isfinite(norm) or not np.isfinite(base), 'newton:gave-up-early', '%d of %d' % (iters, mi))
    if ls and np.isfinite(norm):
        check_armijo(case, R, s, us, start, iters, ls, al, sub)
    if lin_ok and np.isfinite(start).all() and s.root is not None and not bad and mi == 20 and al == 1. and tol in 'dar' and not (name == 'steep' and (not ls or ls[0] < 3)):
        R.check(not failed, 'newton:not-solved', lambda: '%s' % us)
    if name in ('contract', 'slow', 'osc', 'diverge', 'chain', 'three', 'ring') and al == 1. and iters and not ls and not sub and ln == 'direct':
        R.check(np.abs(us[0] - s.root).max() < 1e-8, 'newton:linear-system-not-solved-in-one-step', '%s %s' % (us[0], s.root))


def check_armijo(case, R, s, us, start, iters, ls, al, sub):
    """the number of evaluations in every line search is exactly what the Armijo-Goldstein condition asks for"""
    k, u, n = 0, start, 0
    m, rho, c = ls
    while k < len(us):
        b = badnorm(s, u, n + 1 if sub else 1)
        j = 0
        while True:
            if k + j >= len(us):
                R.fail('backtracking:too-few-steps', '%s at %d' % (us, k))
                return
            f = badnorm(s, us[k + j], k + j + 2 if sub else 1)
            if not np.isfinite(f) or not np.isfinite(b):
                return
            lhs, rhs = b - f, c * al * rho ** j * b
            if abs(lhs - rhs) <= 1e-9 * max(b, 1e-12):
                return      # too close to call in floating point
            if lhs >= rhs or j >= m:
                break
            j += 1
        k += j + 1
        n = k
        u = us[k - 1]
        R.step()
    # k == len(us): every evaluation is explained


# ------------------------------------------------------------------ Brent
BRENT = {  # residual, root(s), brackets (lo, hi)
    'line': (lambda z, x: 2. * z - x, lambda x: x / 2., [(0., 10.), (-5., 5.), (1.5, 100.), (-100., 1.5), (1.5, 1.75), (0., 1.5), (2., 10.)]),
    'cubic': (lambda z, x: z ** 3 + z - 3. * x, lambda x: np.roots([1., 0., 1., -3. * x]).real[np.abs(np.roots([1., 0., 1., -3. * x]).imag) < 1e-9][0],
              [(0., 10.), (-50., 3.), (1., 100.), (5., 10.)]),
    'steep': (lambda z, x: np.tanh(20. * (z - x)), lambda x: x, [(0., 10.), (3., 10.), (-90., 3.), (2.99, 400.)]),
}


def run_b(case, R):
    from openmdao.api import Problem, Group, Component, IndepVarComp, Brent, DirectSolver
    from openmdao.core.system import AnalysisError
    _, fn, br, how, mi, shape, where = case
    f, root, brs = BRENT[fn]
    lo, hi = brs[br]
    x = 3.
    want = root(x)
    log = []

    class C(Component):
        def __init__(self):
            super(C, self).__init__()
            self.add_param('x', 0.)
            self.add_param('a', 0.)
            self.add_param('b', 0.)
            self.add_state('z', 0. if shape == 's' else np.zeros(3))
            self.add_output('w', 0.)

        def zv(self, u):
            return u['z'] if shape == 's' else u['z'][1]

        def solve_nonlinear(self, p, u, r):
            log.append(float(self.zv(u)))
            u['w'] = 3. * self.zv(u)

        def apply_nonlinear(self, p, u, r):
            v = f(self.zv(u), p['x'])
            if shape == 's':
                r['z'] = v
            else:
                r['z'] = np.array([u['z'][0] - 5., v, u['z'][2] - 7.])
            r['w'] = u['w'] - 3. * self.zv(u)

    def make(err):
        prob = Problem(root=Group())
        prob.root.add('p', IndepVarComp([('x', x), ('a', lo), ('b', hi)]), promotes=['*'])
        g = prob.root if where == 'root' else prob.root.add('g', Group(), promotes=['*'])
        g.add('c', C(), promotes=['*'])
        s = g.nl_solver = Brent()
        g.ln_solver = DirectSolver()
        s.options['state_var'] = 'z'
        s.options['state_var_idx'] = 0 if shape == 's' else 1
        if how == 'opt':
            s.options['lower_bound'], s.options['upper_bound'] = lo, hi
        elif how == 'var':
            s.options['var_lower_bound'], s.options['var_upper_bound'] = 'a', 'b'
        else:
            s.options['var_lower_bound'], s.options['upper_bound'] = 'a', hi
        s.options['maxiter'] = mi
        if err:
            s.options['err_on_maxiter'] = True
        rec = snapper()
        s.add_recorder(rec)
        prob.setup(check=False)
        if shape == 'a':
            prob['z'] = np.array([5., 0., 7.])
        return prob, rec
    sign = f(lo, x) * f(hi, x)
    outs = []
    for err in (True, False):
        del log[:]
        prob, rec = make(err)
        out = sys.stdout
        sys.stdout = buf = io.StringIO()
        exc = None
        try:
            prob.run()
        except (AnalysisError, ValueError) as e:
            exc = e
        finally:
            sys.stdout = out
        R.step()
        z = float(flat(prob['z'])[0 if shape == 's' else 1])
        if sign > 0:
            R.check(isinstance(exc, ValueError), 'brent:bad-bracket-accepted', repr(exc))
            continue
        if err:
            R.check(not isinstance(exc, ValueError), 'brent:raised', repr(exc))
            failed = exc is not None
        else:
            R.check(exc is None, 'brent:raised-without-err_on_maxiter', repr(exc))
            failed = len(buf.getvalue().strip()) > 0
        outs.append(failed)
        R.check(len(log) <= mi + 5, 'brent:iteration-limit', '%d evaluations, limit %d' % (len(log), mi))
        if not failed:
            R.check(abs(z - want) <= 1e-9 * (1 + abs(want)), 'brent:success-not-converged', 'z=%s root %s' % (z, want))
            R.check(abs(float(prob['w']) - 3. * z) < 1e-12, 'brent:model-elsewhere', '')
            R.check(z == log[-1], 'brent:model-elsewhere', '')
        else:
            R.check(mi < 100, 'brent:not-solved', '')
        if shape == 'a':
            R.check(prob['z'][0] == 5. and prob['z'][2] == 7., 'brent:other-entries', '%s' % prob['z'])
    if len(outs) == 2:
        R.check(outs[0] == outs[1], 'brent:failure-depends-on-err_on_maxiter', str(outs))


# ------------------------------------------------------------------ nesting
def run_t(case, R):
    from openmdao.api import NLGaussSeidel, Newton, RunOnce, DirectSolver
    _, name, split, outer, inner, g = case
    s = SYS[name]
    names = ['u%d' % i for i in range(s.n)]
    calls = []
    # components inside the subgroup run together where the first of them stood
    prob, sub = model(s, calls, split=split, inner_solve=True)

    def solver(kind, grp):
        if kind in ('gs', 'ait'):
            sol = NLGaussSeidel()
            sol.options['use_aitken'] = kind == 'ait'
            sol.options['atol'] = 1e-11 if grp is prob.root else 1e-13
            sol.options['rtol'] = 1e-14
            sol.options['utol'] = 1e-14
            sol.options['maxiter'] = 300
        elif kind == 'run':
            return RunOnce()
        else:
            sol = Newton()
            sol.options['solve_subsystems'] = kind == 'newton'
            sol.options['maxiter'] = 40
            sol.options['atol'] = 1e-11
        sol.options['err_on_maxiter'] = True
        return sol
    prob.root.nl_solver = solver(outer, prob.root)
    sub.nl_solver = solver(inner, sub)
    for grp in (prob.root, sub):
        grp.ln_solver = DirectSolver()
    prob.setup(check=False)
    e, text = go(prob, names, GUESS[g])
    final = np.array([float(prob[n]) for n in names])
    R.step()
    R.check(e is None, 'nested:not-solved', lambda: '%s %s' % (e, final))
    if e is None:
        R.check(np.abs(final - s.root).max() < 1e-8, 'nested:wrong-solution', lambda: '%s expected %s' % (final, s.root))
        # and once more from where it stands
        e, text = go(prob, names, float(final[0]))
        final = np.array([float(prob[n]) for n in names])
        R.check(e is None and np.abs(final - s.root).max() < 1e-8, 'nested:wrong-solution-second-run', lambda: '%s %s expected %s' % (e, final, s.root))


def run_r(case, R):
    """Problem.run_once leaves residuals that belong to the values it leaves"""
    from openmdao.api import NLGaussSeidel, Newton, DirectSolver, RunOnce, ScipyGMRES
    _, name, sol, mi, g, sp = case
    s = SYS[name]
    if hasattr(s, 'bad'):
        return
    calls = []
    prob, sub = model(s, calls, split=[0] if sp else None)
    if sol == 'run':
        prob.root.nl_solver = RunOnce()
    else:
        n = prob.root.nl_solver = Newton() if sol == 'newton' else NLGaussSeidel()
        n.options['maxiter'] = mi
        if sol == 'ait':
            n.options['use_aitken'] = True
    prob.root.ln_solver = DirectSolver()
    if sub is not None:
        sub.ln_solver = ScipyGMRES()
    prob.setup(check=False)
    names = ['u%d' % i for i in range(s.n)]
    for again in range(2):
        for n in names:
            prob[n] = GUESS[g] + again
        out = sys.stdout
        sys.stdout = io.StringIO()
        try:
            prob.run_once()
        finally:
            sys.stdout = out
        u = np.array([float(prob[n]) for n in names])
        r = np.array([float(prob.root.resids[n]) for n in names])
        E = s.resid(u)
        R.step()
        if np.all(np.isfinite(u)) and np.all(np.isfinite(E)):
            R.check(np.all(np.abs(r - E) <= 1e-9 * np.maximum(1., np.maximum(np.abs(u).max(), np.abs(E)))), 'run_once:stale-residuals',
                    lambda: 'values %s residuals %s expected %s' % (u, r, E))


UN = [(None, None), ('m', 'cm'), ('degC', 'degF'), ('km', 'ft')]


def run_u(case, R):
    from openmdao.api import Problem, Group, Component, IndepVarComp, Newton, DirectSolver, ScipyGMRES, LinearGaussSeidel
    from mc.models import conv
    _, un, ln, lay = case
    # the connections: x -> c0, y1 -> c0, y0 -> c1, y0 and y1 -> state z, z -> c1
    ux, u0, u1, uz = [UN[k] for k in un]

    def meta(u):
        return {} if u is None else {'units': u}

    class C0(Component):
        def __init__(self):
            super(C0, self).__init__()
            self.add_param('x', 0., **meta(ux[1]))
            self.add_param('y1', 0., **meta(u1[1]))
            self.add_output('y0', 0., **meta(u0[0]))

        def solve_nonlinear(self, p, u, r):
            u['y0'] = K[0] * p['x'] + K[1] * p['y1'] + 1.

        def linearize(self, p, u, r):
            return {('y0', 'x'): np.array([[K[0]]]), ('y0', 'y1'): np.array([[K[1]]])}

    class C1(Component):
        def __init__(self):
            super(C1, self).__init__()
            self.add_param('y0', 0., **meta(u0[1]))
            self.add_param('z', 0., **meta(uz[1]))
            self.add_output('y1', 0., **meta(u1[0]))

        def solve_nonlinear(self, p, u, r):
            u['y1'] = K[2] * p['y0'] + K[3] * p['z'] - 2.

        def linearize(self, p, u, r):
            return {('y1', 'y0'): np.array([[K[2]]]), ('y1', 'z'): np.array([[K[3]]])}

    class S(Component):
        def __init__(self):
            super(S, self).__init__()
            self.add_param('y0', 0., **meta(u0[0]))
            self.add_param('y1', 0., **meta(u1[1]))
            self.add_state('z', 0., **meta(uz[0]))

        def solve_nonlinear(self, p, u, r):
            pass

        def apply_nonlinear(self, p, u, r):
            r['z'] = 4. * u['z'] - K[4] * p['y0'] - K[5] * p['y1'] - 3.

        def linearize(self, p, u, r):
            return {('z', 'z'): np.array([[4.]]), ('z', 'y0'): np.array([[-K[4]]]), ('z', 'y1'): np.array([[-K[5]]])}

        def solve_linear(self, du, dr, vois, mode=None):
            for v in vois:
                if mode == 'fwd':
                    du[v].vec[:] = dr[v].vec / 4.
                else:
                    dr[v].vec[:] = du[v].vec / 4.
    cx, c0, c1, cz = [conv(*p) for p in (ux, u0, u1, uz)]
    # coupling of the same strength whatever the units
    K = [2., .2 / c1[0], .3 / c0[0], .1 / cz[0], .5, .4 / c1[0]]
    prob = Problem(root=Group())
    root = prob.root
    top = lay == 0
    g = root if top else root.add('g', Group())
    if lay == 3:
        h = g.add('h', Group())
        h.ln_solver = ScipyGMRES()
    (root if lay != 2 else g).add('p', IndepVarComp('x', 1.5, **meta(ux[0])))
    where = {'p': ('g.' if lay == 2 else '') + 'p'}
    for n, cl in (('c0', C0), ('c1', C1), ('s', S)):
        inner = lay == 3 and n != 'c1'
        (h if inner else g).add(n, cl())
        where[n] = ('' if top else 'g.') + ('h.' if inner else '') + n
    for a, b in (('p.x', 'c0.x'), ('c1.y1', 'c0.y1'), ('c0.y0', 'c1.y0'), ('s.z', 'c1.z'), ('c0.y0', 's.y0'), ('c1.y1', 's.y1')):
        a, b = a.split('.'), b.split('.')
        root.connect(where[a[0]] + '.' + a[1], where[b[0]] + '.' + b[1])
    new = g.nl_solver = Newton()
    new.options['maxiter'] = 1
    new.options['solve_subsystems'] = False
    if ln == 'direct':
        g.ln_solver = DirectSolver()
    elif ln == 'gmres':
        g.ln_solver = ScipyGMRES()
        g.ln_solver.options['atol'] = 1e-14
    else:
        g.ln_solver = LinearGaussSeidel()
        g.ln_solver.options['maxiter'] = 200
        g.ln_solver.options['atol'] = 1e-13
        g.ln_solver.options['rtol'] = 1e-13
    prob.setup(check=False)
    for x in (1.5, -40.):
        prob[where['p'] + '.x'] = x
        out = sys.stdout
        sys.stdout = io.StringIO()
        try:
            prob.run()
        finally:
            sys.stdout = out
        A = np.array([[1., -K[1] * c1[0], 0.], [-K[2] * c0[0], 1., -K[3] * cz[0]], [-K[4], -K[5] * c1[0], 4.]])
        b = np.array([K[0] * (cx[0] * x + cx[1]) + K[1] * c1[1] + 1., K[2] * c0[1] + K[3] * cz[1] - 2., K[5] * c1[1] + 3.])
        want = np.linalg.solve(A, b)
        got = np.array([float(prob[where['c0'] + '.y0']), float(prob[where['c1'] + '.y1']), float(prob[where['s'] + '.z'])])
        R.step()
        R.check(np.all(np.abs(got - want) <= 1e-7 * np.maximum(1., np.abs(want).max())), 'newton:step-not-exact', lambda: '%s expected %s' % (got, want))
