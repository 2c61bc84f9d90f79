"""C27: one failing call of user code leaves the problem usable."""
from itertools import product
import io
import os
import shutil
import tempfile
import traceback
import warnings
import numpy as np

PID = 'C27'
LEVEL = 'fault_enumeration'
RULE = ('for models with every solver, derivative method, driver and component kind, and for every phase (first run, later run, derivatives forward, reverse and by '
        'differences, both derivative checks): every call into user code of that phase is made to fail once, before or after its work, with every kind of exception; '
        'the exception has to arrive with its traceback, inputs, options and process settings have to be what they were, phases other than runs may not change '
        'any value, and everything done afterwards has to give the results of a twin that did not fail')
ASSUMPTIONS = ['after a failed run the outputs are unspecified until the next run; iterative solvers restart from them, so results agree to the tolerance of the solver',
               'drivers for prepared cases record an AnalysisError in the case']
TECH = 'exhaustive single-fault injection at every call into user code, compared with a twin execution without fault'
NOTE = 'single faults; exceptions only, not the end of the process (C12)'
CASE_LIMIT = 300


class Boom(RuntimeError):
    pass


def kinds():
    from openmdao.core.system import AnalysisError
    return {'own': Boom, 'runtime': RuntimeError, 'analysis': AnalysisError, 'float': FloatingPointError, 'attr': AttributeError, 'key': KeyError, 'stop': StopIteration,
            'index': IndexError, 'type': TypeError, 'value': ValueError, 'zero': ZeroDivisionError, 'import': ImportError, 'os': OSError, 'interrupt': KeyboardInterrupt}


KINDS = ('own', 'runtime', 'analysis', 'float', 'attr', 'key', 'stop', 'index', 'type', 'value', 'zero', 'os', 'interrupt')


class Fault(object):
    """counts the calls of user code, and raises at the chosen one"""

    def __init__(self):
        self.on, self.n, self.at, self.late, self.kind, self.raised, self.log = False, 0, None, 0, None, None, []

    def arm(self, at, late=0, kind=None):
        self.on, self.n, self.at, self.late, self.kind, self.raised, self.log = True, 0, at, late, kind, None, []

    def off(self):
        self.on = False

    def enter(self, what):
        if not self.on:
            return None
        k = self.n
        self.n += 1
        self.log.append(what)
        if k == self.at and not self.late:
            self.throw(what)
        return k

    def leave(self, k, what):
        if self.on and k is not None and k == self.at and self.late:
            self.throw(what)

    def throw(self, what):
        self.raised = kinds()[self.kind]('boom in %s' % (what,))
        raise self.raised


def guarded(fn):
    def call(self, *args, **kwargs):
        what = '%s.%s' % (self.tag, fn.__name__)
        k = self.fault.enter(what)
        out = fn(self, *args, **kwargs)
        self.fault.leave(k, what)
        return out
    call.__name__ = fn.__name__
    return call


def classes():
    from openmdao.api import Component
    from openmdao.surrogate_models.surrogate_model import SurrogateModel

    class Exp(Component):
        """y = c + a * sum(x) + .1 * x0^2"""

        def __init__(self, fault, tag, nx=1, a=.5, c=1., units=None, size=1):
            super(Exp, self).__init__()
            self.fault, self.tag, self.nx, self.a, self.c, self.size = fault, tag, nx, a, c, size
            for i in range(nx):
                kw = {'units': units[i]} if units and units[i] else {}
                self.add_param('x%d' % i, 1. if size == 1 else np.ones(size), **kw)
            kw = {'units': units[nx]} if units and units[nx] else {}
            self.add_output('y', 0. if size == 1 else np.zeros(size), **kw)

        @guarded
        def solve_nonlinear(self, params, unknowns, resids):
            unknowns['y'] = self.c + self.a * sum(params['x%d' % i] for i in range(self.nx)) + .1 * params['x0'] ** 2

        @guarded
        def linearize(self, params, unknowns, resids):
            J = {}
            for i in range(self.nx):
                d = self.a + (.2 * params['x0'] if i == 0 else 0. * params['x0'])
                J['y', 'x%d' % i] = np.array([[d]]) if self.size == 1 else np.diag(d)
            return J

    class ExpApply(Exp):
        linearize = Component.linearize

        @guarded
        def apply_linear(self, params, unknowns, dparams, dunknowns, dresids, mode):
            for i in range(self.nx):
                x = 'x%d' % i
                if x not in dparams:
                    continue
                d = self.a + (.2 * params['x0'] if i == 0 else 0. * params['x0'])
                if mode == 'fwd':
                    dresids['y'] += d * dparams[x]
                else:
                    dparams[x] += d * dresids['y']

    class Imp(Component):
        """z + .2 z^3 = x0 + .5 x1"""

        def __init__(self, fault, tag, nx=1, own=True, scaler=None):
            super(Imp, self).__init__()
            self.fault, self.tag, self.nx, self.own = fault, tag, nx, own
            for i in range(nx):
                self.add_param('x%d' % i, 1.)
            kw = {'resid_scaler': scaler} if scaler else {}
            self.add_state('y', 0., **kw)

        def rhs(self, params):
            return params['x0'] + (.5 * params['x1'] if self.nx > 1 else 0.)

        @guarded
        def solve_nonlinear(self, params, unknowns, resids):
            if self.own:
                z = unknowns['y']
                for _ in range(40):
                    z = z - (z + .2 * z ** 3 - self.rhs(params)) / (1. + .6 * z ** 2)
                unknowns['y'] = z

        @guarded
        def apply_nonlinear(self, params, unknowns, resids):
            resids['y'] = unknowns['y'] + .2 * unknowns['y'] ** 3 - self.rhs(params)

        @guarded
        def linearize(self, params, unknowns, resids):
            self.d = 1. + .6 * unknowns['y'] ** 2
            J = {('y', 'y'): np.array([[self.d]]), ('y', 'x0'): np.array([[-1.]])}
            if self.nx > 1:
                J['y', 'x1'] = np.array([[-.5]])
            return J

    class ImpLin(Imp):
        @guarded
        def solve_linear(self, dumat, drmat, vois, mode=None):
            for voi in vois:
                if mode == 'fwd':
                    dumat[voi].vec[:] = drmat[voi].vec / self.d
                else:
                    drmat[voi].vec[:] = dumat[voi].vec / self.d

        @guarded
        def apply_linear(self, params, unknowns, dparams, dunknowns, dresids, mode):
            for v, vec, d in (('y', dunknowns, self.d), ('x0', dparams, -1.), ('x1', dparams, -.5)):
                if v in vec and 'y' in dresids:
                    if mode == 'fwd':
                        dresids['y'] += d * vec[v]
                    else:
                        vec[v] += d * dresids['y']

        @guarded
        def linearize(self, params, unknowns, resids):
            self.d = 1. + .6 * unknowns['y'] ** 2

    class Sur(SurrogateModel):
        def __init__(self, fault, tag):
            super(Sur, self).__init__()
            self.fault, self.tag = fault, tag

        @guarded
        def train(self, x, y):
            self.k, _, _, _ = np.linalg.lstsq(np.hstack([np.array(x), np.ones((len(x), 1))]), np.array(y), rcond=None)

        @guarded
        def predict(self, x):
            return np.array(x).ravel().dot(self.k[:-1]) + self.k[-1]

        @guarded
        def linearize(self, x):
            return self.k[:-1].T

    return Exp, ExpApply, Imp, ImpLin, Sur


class Case(object):
    """a problem with its fault injector, what to set and what to differentiate"""

    def __init__(self, prob, fault, ins, outs, exact=True, keep=None, rec=None, tol=1e-7):
        self.prob, self.fault, self.ins, self.outs, self.exact, self.rec, self.tol = prob, fault, ins, outs, exact, rec, tol


# ------------------------------------------------------------------ models

def build(name):
    from openmdao.api import (Problem, Group, IndepVarComp, NLGaussSeidel, Newton, LinearGaussSeidel, ScipyGMRES, DirectSolver, ExecComp, MetaModel, SubProblem,
                              Brent, ScipyOptimizer, FullFactorialDriver, RunOnce, ParallelGroup)
    from openmdao.solvers.backtracking import BackTracking
    Exp, ExpApply, Imp, ImpLin, Sur = classes()
    fault = Fault()
    parts = name.replace('L-BFGS-B', 'LBFGSB').split('-')
    kind = parts[0]
    prob = Problem(root=Group())
    root = prob.root
    exact = True
    tol = 1e-7
    ins, outs = ['ind.x'], []
    root.add('ind', IndepVarComp([('x', 1.5), ('w', .5)]))

    def quietly(solver, **kw):
        solver.options['iprint'] = -1
        for k in kw:
            solver.options[k] = kw[k]
        return solver

    def newton(lin, ls=False, **kw):
        s = quietly(Newton(), atol=1e-11, rtol=1e-13, maxiter=20, **kw)
        s.ln_solver = lin
        if ls:
            s.line_search = quietly(BackTracking(), maxiter=3)
        return s

    def lins(which):
        if which == 'gs':
            return LinearGaussSeidel()
        if which == 'direct':
            return DirectSolver()
        s = quietly(ScipyGMRES(), atol=1e-12)
        if which == 'pre':
            s.preconditioner = LinearGaussSeidel()
        if which == 'gmresdir':
            s.preconditioner = DirectSolver()
        return s

    E = ExpApply if 'apply' in parts else Exp
    if kind == 'chain':
        g = root.add('g', Group())
        root.add('a', E(fault, 'a', 2, units=('cm', None, 'm') if 'units' in parts else None))
        g.add('b', E(fault, 'b', 1, units=('km', 'kg') if 'units' in parts else None))
        g.add('c', E(fault, 'c', 2))
        if 'units' in parts:
            root.ind._init_unknowns_dict['x']['units'] = 'm'
        root.connect('ind.x', 'a.x0')
        root.connect('ind.w', 'a.x1')
        root.connect('a.y', 'g.b.x0')
        root.connect('a.y', 'g.c.x0')
        root.connect('g.b.y', 'g.c.x1')
        root.set_order(['ind', 'a', 'g'])
        outs = ['a.y', 'g.c.y']
        for opt in parts[1:]:
            if opt == 'gfd':
                g.deriv_options['type'] = 'fd'
            if opt == 'gcentral':
                g.deriv_options['type'] = 'fd'
                g.deriv_options['form'] = 'central'
            if opt == 'cfd':
                root.a.deriv_options['type'] = 'fd'
                g.c.deriv_options['type'] = 'fd'
            if opt == 'ccs':
                root.a.deriv_options['type'] = 'cs'
                g.c.deriv_options['type'] = 'cs'
            if opt == 'rfd':
                root.deriv_options['type'] = 'fd'
            if opt == 'rcs':
                root.deriv_options['type'] = 'cs'
            if opt == 'rel':
                root.deriv_options['type'] = 'fd'
                root.deriv_options['step_calc'] = 'relative'
                root.deriv_options['form'] = 'backward'
            if opt in ('gmres', 'direct', 'pre', 'gmresdir'):
                root.ln_solver = lins(opt)
                exact = opt == 'direct'
            if opt == 'dir':
                g.directory = 'gd'
                g.create_dirs = True
                root.a.directory = 'ad'
                root.a.create_dirs = True
        ins = ['ind.x', 'ind.w']
    elif kind == 'cycle':
        # a <-> b, with e behind; in a subgroup or in the root
        exact = False
        sub = 'sub' in parts
        c = root.add('g', Group()) if sub else root
        imp = 'imp' in parts
        pre = 'g.' if sub else ''
        c.add('a', E(fault, 'a', 2, .3))
        if imp:
            c.add('b', (ImpLin if 'lin' in parts else Imp)(fault, 'b', 2, 'own' in parts, 4. if 'scaled' in parts else None))
        else:
            c.add('b', E(fault, 'b', 2, .4))
        root.add('e', E(fault, 'e', 1))
        root.connect('ind.x', pre + 'a.x0')
        root.connect(pre + 'b.y', pre + 'a.x1')
        root.connect(pre + 'a.y', pre + 'b.x1')
        root.connect('ind.w', pre + 'b.x0')
        root.connect(pre + 'b.y', 'e.x0')
        lin = [p for p in parts if p in ('gs', 'direct', 'gmres', 'pre', 'gmresdir')][0]
        if 'newton' in parts:
            c.nl_solver = newton(lins(lin if lin != 'gs' else 'direct'), 'ls' in parts, solve_subsystems='nosub' not in parts)
        elif 'aitken' in parts:
            c.nl_solver = quietly(NLGaussSeidel(), atol=1e-11, rtol=1e-13, maxiter=60, use_aitken=True)
        else:
            c.nl_solver = quietly(NLGaussSeidel(), atol=1e-11, rtol=1e-13, maxiter=60)
        c.ln_solver = lins(lin)
        if lin == 'gs':
            c.ln_solver = quietly(LinearGaussSeidel(), maxiter=60, atol=1e-12)
        if 'gfd' in parts:
            c.deriv_options['type'] = 'fd'
            tol = 1e-5
        if 'cfd' in parts:
            c.a.deriv_options['type'] = 'fd'
            tol = 1e-5
        ins = ['ind.x', 'ind.w']
        outs = ['e.y', pre + 'a.y']
    elif kind == 'brent':
        exact = False
        g = root.add('g', Group())
        g.add('b', Imp(fault, 'b', 1, False))
        root.connect('ind.x', 'g.b.x0')
        g.nl_solver = quietly(Brent(), state_var='b.y', lower_bound=-10., upper_bound=10., xtol=1e-12, rtol=1e-12)
        g.ln_solver = DirectSolver()
        root.add('e', E(fault, 'e', 1))
        root.connect('g.b.y', 'e.x0')
        outs = ['e.y']
    elif kind == 'meta':
        m = MetaModel()
        m.add_param('x0', 0.)
        m.add_param('x1', 0.)
        m.add_output('y', 0., surrogate=Sur(fault, 's'))
        if 'two' in parts:
            m.add_output('y2', 0., surrogate=Sur(fault, 's2'))
        root.add('m', m)
        root.add('e', E(fault, 'e', 1))
        root.connect('ind.x', 'm.x0')
        root.connect('ind.w', 'm.x1')
        root.connect('m.y2' if 'two' in parts else 'm.y', 'e.x0')
        ins = ['ind.x', 'ind.w']
        outs = ['e.y']
        tol = 1e-5
    elif kind == 'subprob':
        ip = Problem(root=Group())
        ip.root.add('ind', IndepVarComp('x', 1.))
        ip.root.add('a', E(fault, 'a', 1))
        ip.root.add('b', E(fault, 'b', 1))
        ip.root.connect('ind.x', 'a.x0')
        ip.root.connect('a.y', 'b.x0')
        if 'ifd' in parts:
            ip.root.deriv_options['type'] = 'fd'
        s = root.add('s', SubProblem(ip, ['ind.x'], ['b.y']))
        root.add('e', E(fault, 'e', 1))
        root.connect('ind.x', 's.ind.x')
        root.connect('s.b.y', 'e.x0')
        outs = ['e.y']
    elif kind == 'array':
        root.add('v', IndepVarComp('v', np.array([1., -2., .5])))
        g = root.add('g', Group())
        g.add('a', E(fault, 'a', 1, size=3))
        g.add('b', E(fault, 'b', 2, size=3))
        root.connect('v.v', 'g.a.x0')
        root.connect('v.v', 'g.b.x1')
        root.connect('g.a.y', 'g.b.x0')
        if 'gfd' in parts:
            g.deriv_options['type'] = 'fd'
        if 'rcs' in parts:
            root.deriv_options['type'] = 'cs'
        if 'cfd' in parts:
            g.b.deriv_options['type'] = 'fd'
        ins, outs = ['v.v'], ['g.b.y']
    elif kind == 'opt':
        root.add('a', E(fault, 'a', 2, -.4))
        root.add('c', E(fault, 'c', 1, 1.))
        root.connect('ind.x', 'a.x0')
        root.connect('ind.w', 'a.x1')
        root.connect('a.y', 'c.x0')
        prob.driver = ScipyOptimizer()
        prob.driver.options['optimizer'] = {'LBFGSB': 'L-BFGS-B'}.get(parts[1], parts[1])
        prob.driver.options['disp'] = False
        prob.driver.options['tol'] = 1e-6
        prob.driver.options['maxiter'] = 25
        prob.driver.add_desvar('ind.x', lower=-4., upper=4., **({'scaler': .5} if 'scaled' in parts else {}))
        prob.driver.add_desvar('ind.w', lower=-1., upper=1.)
        prob.driver.add_objective('a.y')
        if parts[1] in ('SLSQP', 'COBYLA'):
            prob.driver.add_constraint('c.y', lower=1.2)
        if 'rfd' in parts:
            root.deriv_options['type'] = 'fd'
        ins, outs = ['ind.x', 'ind.w'], ['a.y', 'c.y']
    elif kind == 'doe':
        root.add('a', E(fault, 'a', 2))
        root.add('c', E(fault, 'c', 1))
        root.connect('ind.x', 'a.x0')
        root.connect('ind.w', 'a.x1')
        root.connect('a.y', 'c.x0')
        prob.driver = FullFactorialDriver(num_levels=2)
        prob.driver.add_desvar('ind.x', lower=-1., upper=2.)
        prob.driver.add_desvar('ind.w', lower=0., upper=1.)
        prob.driver.add_objective('c.y')
        ins, outs = ['ind.x', 'ind.w'], ['a.y', 'c.y']
    else:
        raise KeyError(name)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        prob.setup(check=False)
    if kind == 'meta':
        X = np.array([[0., 0.], [1., 0.], [0., 1.], [2., 2.], [-1., .5]])
        prob['m.train:x0'], prob['m.train:x1'] = list(X[:, 0]), list(X[:, 1])
        prob['m.train:y'] = list(X.dot([1., 2.]) + .5)
        if 'two' in parts:
            prob['m.train:y2'] = list(X.dot([-1., .25]) + 2.)
    return Case(prob, fault, ins, outs, exact, tol=tol)


# ------------------------------------------------------------------ observations

def options(prob):
    """every option of systems, solvers and the driver, and whether it may be changed"""
    out = {}

    def add(key, opts):
        vals = {}
        for name in sorted(opts._options):
            v = opts[name]
            vals[name] = v if isinstance(v, (int, float, str, bool, type(None))) else repr(type(v))
            if name in ('type', 'form', 'maxiter'):
                try:
                    opts[name] = v
                    vals[name + ' free'] = True
                except Exception:
                    vals[name + ' free'] = False
        out[key] = vals
    add('driver', prob.driver.options)
    for s in prob.root.subsystems(recurse=True, include_self=True):
        add((s.pathname, 'deriv'), s.deriv_options)
        for which in ('nl_solver', 'ln_solver'):
            sol = getattr(s, which, None)
            for depth in range(3):
                if sol is None or not hasattr(sol, 'options'):
                    break
                add((s.pathname, which, depth), sol.options)
                sol = getattr(sol, 'ln_solver', None) or getattr(sol, 'preconditioner', None)
    return out


def values(prob):
    out = {}
    for n in prob.root.unknowns:
        v = prob[n]
        out[n] = np.array(v, dtype=float, copy=True) if isinstance(v, (float, np.ndarray)) else v
    return out


def inputs(case):
    return dict((i, np.array(case.prob[i], copy=True)) for i in ('ind.x', 'ind.w') + tuple(case.ins))


def settings():
    return os.getcwd(), tuple(sorted(np.geterr().items()))


def perform(case, phase):
    prob = case.prob
    sink = io.StringIO()
    if phase in ('run1', 'run'):
        prob.run()
        return None
    if phase in ('fwd', 'rev', 'fd'):
        return prob.calc_gradient(case.ins, case.outs, mode=phase)
    if phase == 'partials':
        d = prob.check_partial_derivatives(out_stream=sink)
        return dict(((c, k, j), np.array(d[c][k][j])) for c in d for k in d[c] for j in ('J_fwd', 'J_rev', 'J_fd') if d[c][k].get(j) is not None)
    if phase == 'totals':
        d = prob.check_total_derivatives(out_stream=sink)
        return dict(((k, j), np.array(d[k][j])) for k in d for j in ('J_fwd', 'J_rev', 'J_fd') if d[k].get(j) is not None)


def put(case, k):
    prob = case.prob
    for n, i in enumerate(case.ins):
        v = prob[i]
        new = [.75, 1.25, -.5][k % 3] + .125 * n
        prob[i] = new if not isinstance(v, np.ndarray) or np.ndim(v) == 0 else new + .25 * np.arange(len(v))


def alike(a, b, exact, tol):
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(map(repr, a)) == sorted(map(repr, b)) and all(alike(a[k], b[k], exact, tol) for k in a)
    if a is None or b is None:
        return a is b
    if not isinstance(a, (float, np.ndarray)):
        return type(a) is type(b) and repr(a) == repr(b)
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if exact:
        return np.array_equal(a, b)
    return bool(np.all(np.abs(a - b) <= tol * (1. + np.abs(b))))


RUNS = ('run1', 'run')
PHASES = ('run1', 'run', 'fwd', 'rev', 'fd', 'partials', 'totals')


def prepare(name, phase):
    case = build(name)
    if phase != 'run1':
        put(case, 0)
        case.prob.run()
    put(case, 1)
    if phase not in RUNS:
        case.prob.run()
    return case


def afterwards(case, phase):
    """what is done after the phase: again, then with other inputs"""
    out = []
    if phase not in RUNS:
        out.append(('again', perform(case, phase)))
        out.append(('values', values(case.prob)))
    else:
        put(case, 1)
    for k in (1, 2):
        if k == 2 or phase in RUNS:
            put(case, k)
            case.prob.run()
            out.append(('run%d' % k, values(case.prob)))
        if not hasattr(case.prob.driver, 'add_desvar') or True:
            for mode in ('fwd', 'rev', 'fd'):
                out.append((mode + str(k), perform(case, mode)))
    return out


def run(case, R):
    name, phase, kind, late, part, parts = case
    here = os.getcwd()
    tmp = tempfile.mkdtemp(prefix='mc27-')
    os.chdir(tmp)
    try:
        explore(case, R, name, phase, kind, late, part, parts)
    finally:
        os.chdir(here)
        shutil.rmtree(tmp, ignore_errors=True)


def explore(case, R, name, phase, kind, late, part, parts):
    warnings.simplefilter('ignore')
    twin = prepare(name, phase)
    twin.fault.arm(None)
    try:
        perform(twin, phase)
    except Exception as err:
        R.note('phase not available: %s' % name.split('-')[0])
        R.check('rfd' in name or 'rcs' in name or 'rel' in name, 'twin', (case, repr(err)))
        return
    twin.fault.off()
    n, log = twin.fault.n, list(twin.fault.log)
    want = afterwards(twin, phase)
    for k in range(n):
        if k % parts != part:
            continue
        R.step()
        c = prepare(name, phase)
        opts, ins, sets, vals = options(c.prob), inputs(c), settings(), values(c.prob)
        c.fault.arm(k, late, kind)
        info = (case, k, log[k])
        key = '%s:' % phase
        err = None
        try:
            perform(c, phase)
        except BaseException as e:
            err = e
        boom = c.fault.raised
        c.fault.off()
        if boom is None:
            R.fail(key + 'other-calls', info)
            continue
        doe = name.startswith('doe')
        if err is None:
            if not (doe and kind == 'analysis'):
                R.fail(key + 'swallowed', info)
                continue
        else:
            R.check(isinstance(err, type(boom)) and 'boom in ' in str(err), key + 'other-exception', (info, repr(err)))
            e, frames = err, []
            while e is not None:
                frames += [f.name for f in traceback.extract_tb(e.__traceback__)]
                e = e.__cause__ or e.__context__
            R.check('throw' in frames, key + 'traceback-lost', (info, frames))
        R.check(settings() == sets, key + 'settings', (info, settings(), sets))
        now = options(c.prob)
        R.check(now == opts, key + 'options', (info, [(q, now.get(q), opts[q]) for q in opts if now.get(q) != opts[q]]))
        driven = name.split('-')[0] in ('opt', 'doe')
        if not (driven and phase in RUNS):
            R.check(alike(inputs(c), ins, True, 0), key + 'inputs', (info, inputs(c), ins))
        if phase not in RUNS:
            v = values(c.prob)
            R.check(alike(v, vals, True, 0), key + 'values', (info, [(q, v[q], vals[q]) for q in v if not alike(v[q], vals[q], True, 0)]))
        try:
            got = afterwards(c, phase)
        except BaseException as e:
            R.fail(key + 'unusable', (info, repr(e), traceback.format_exc()[-600:]))
            continue
        for (what, a), (_, b) in zip(got, want):
            # differences of an iterated value carry its error divided by the step
            loose = 1e-3 if name == 'subprob-ifd' else 1e-4 if what.startswith('fd') or 'fd' in name or phase == 'totals' else 1e-6
            if not alike(a, b, c.exact and phase != 'totals', c.tol if what in ('values', 'run1', 'run2') else max(c.tol, loose)):
                R.fail(key + 'later-' + what, (info, a, b))
        R.state((name, phase, kind, late, k))
    R.trace()


CHAINS = ('chain', 'chain-apply', 'chain-units', 'chain-units-apply', 'chain-gfd', 'chain-gcentral', 'chain-cfd', 'chain-ccs', 'chain-rfd', 'chain-rcs', 'chain-rel', 'chain-gmres',
          'chain-direct', 'chain-pre', 'chain-gmresdir-units', 'chain-dir', 'chain-dir-gfd', 'array', 'array-gfd', 'array-rcs', 'array-cfd', 'array-apply', 'meta', 'meta-two', 'subprob',
          'subprob-ifd', 'brent', 'chain-units-cfd-gmres')
CYCLES = ('cycle-gs', 'cycle-gs-sub', 'cycle-aitken-gmres-sub', 'cycle-gmres', 'cycle-pre-sub', 'cycle-direct-apply-sub', 'cycle-newton-direct', 'cycle-newton-direct-sub',
          'cycle-newton-gmres-ls-sub', 'cycle-newton-nosub-direct-ls', 'cycle-imp-newton-direct-sub', 'cycle-imp-newton-gmres-ls', 'cycle-imp-own-gs-sub', 'cycle-imp-own-lin-gs',
          'cycle-imp-lin-newton-pre-sub', 'cycle-imp-scaled-newton-gmres', 'cycle-newton-gfd-direct-sub', 'cycle-gfd-gs-sub', 'cycle-cfd-direct-sub', 'cycle-imp-newton-gfd-gmres-sub')
DRIVEN = ('opt-SLSQP', 'opt-SLSQP-rfd', 'opt-SLSQP-scaled', 'opt-COBYLA', 'opt-L-BFGS-B', 'opt-TNC', 'doe')


def cases(tier):
    q = tier == 'quick'
    out = []
    for name in CHAINS + CYCLES:
        for phase in PHASES:
            if phase in ('partials', 'totals') and any(p in name for p in ('rfd', 'rcs', 'rel')):
                continue
            for kind in KINDS:
                for late in (0, 1):
                    if q and (late and kind not in ('own', 'float') or not late and kind in ('zero', 'index', 'value', 'type')):
                        continue
                    if q and name in CYCLES and (kind not in ('own', 'float', 'stop') or late and kind != 'own'):
                        continue
                    parts = 4 if name in CYCLES else 1
                    for part in range(parts):
                        out.append([name, phase, kind, late, part, parts])
    for name in DRIVEN:
        for phase in ('run1', 'run'):
            for kind in KINDS:
                for late in (0, 1):
                    if q and (late and kind != 'own' or not late and kind in ('zero', 'index', 'value', 'type')):
                        continue
                    for part in range(4):
                        out.append([name, phase, kind, late, part, 4])
    return out
