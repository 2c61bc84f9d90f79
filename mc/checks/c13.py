"""C13: results depend on the current inputs, never on what was done before."""
from itertools import product
import copy
import io
import sys
import warnings
import numpy as np

PID = 'C13'
LEVEL = 'model_checking'
RULE = ('explicit-state exploration: all sequences over {set inputs (2 points), run, run_once, gradient fwd / rev / fd / through the driver, '
        'check partials, check totals, set up again, add a component and set up} to the depth of the tier on every model of a list that '
        'covers all solvers, states, units, indices, finite differences at every level, objects, unconnected inputs and scaling; after '
        'every sequence inputs are set and values and gradients are compared with a problem built and run once; every derivative '
        'operation has to leave values and options alone')
ASSUMPTIONS = ['models converge to a unique solution; converged values agree to the tolerance of the solver, explicit models bit by bit',
               'what has not been run since the last setup is run by the derivative checks']
NOTE = 'all sequences in the bounds are run'

OPS = 'szrofvdcptS'
MODELS = ['chain', 'cyc', 'newton', 'nest', 'impl', 'fdsub', 'fdroot', 'fdcomp', 'cscomp', 'pbo', 'free', 'scaled', 'assemble', 'brent', 'meta', 'sub', 'order']
EXACT = {'chain', 'fdsub', 'fdroot', 'fdcomp', 'cscomp', 'pbo', 'free', 'order', 'sub'}
DEPTH4 = ['chain', 'fdsub', 'impl', 'pbo']


def cases(tier):
    q = tier == 'quick'
    out = []
    for m in MODELS:
        ops = OPS + ('A' if m == 'order' else '')
        for L in range(4 if q else 5):
            for o in product(ops, repeat=L):
                if useless(o):
                    continue
                out.append([m, ''.join(o)])
        if q and m in DEPTH4:
            for o in product('szrfvdtS', repeat=4):
                if not useless(o) and o[0] in 'szr':
                    out.append([m, ''.join(o)])
    for m in ('order',):
        for L in range(2, 5 if q else 6):
            for o in product('AVSrfd', repeat=L):
                if not useless(o):
                    out.append([m, ''.join(o)])
    return out


def useless(o):
    for a, b in zip(o, o[1:]):
        if a == b and a in 'szS' or a in 'sz' and b in 'szS':
            return True
    return bool(o) and o[-1] in 'szroS'      # the end of every sequence sets and runs


def run(case, R):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        old = sys.stdout
        sys.stdout = io.StringIO()
        try:
            go(case, R)
        finally:
            sys.stdout = old
    R.trace()


# ------------------------------------------------------------------ models
def classes():
    from openmdao.api import Component

    class Non(Component):
        """o = k*i*i + j"""
        def __init__(self, k, n=1, units=None, fd=None):
            super(Non, self).__init__()
            self.k = k
            kw = {'units': units} if units else {}
            self.add_param('i', np.zeros(n), **kw)
            self.add_param('j', 0.)
            self.add_output('o', np.zeros(n))
            if fd:
                self.deriv_options['type'] = fd

        def solve_nonlinear(self, p, u, r):
            u['o'] = self.k * p['i'] * p['i'] + p['j']

        def linearize(self, p, u, r):
            n = len(p['i'])
            return {('o', 'i'): np.diag(2. * self.k * p['i']), ('o', 'j'): np.ones((n, 1))}

    class Lin(Component):
        """o = a*i + b*j"""
        def __init__(self, a, b, i='i', j='j', o='o', fd=None):
            super(Lin, self).__init__()
            self.n, self.a, self.b = (i, j, o), a, b
            self.add_param(i, 0.)
            self.add_param(j, 0.)
            self.add_output(o, 0.)
            if fd:
                self.deriv_options['type'] = fd

        def solve_nonlinear(self, p, u, r):
            i, j, o = self.n
            u[o] = self.a * np.sin(p[i]) + self.b * p[j]

        def linearize(self, p, u, r):
            i, j, o = self.n
            return {(o, i): np.array([[self.a * np.cos(p[i])]]), (o, j): np.array([[self.b]])}

    class Impl(Component):
        """s + .2*sin(s) = x + w"""
        def __init__(self):
            super(Impl, self).__init__()
            self.add_param('x', 0.)
            self.add_param('w', 0.)
            self.add_state('s', 0.)
            self.add_output('y', 0.)

        def solve_nonlinear(self, p, u, r):
            u['y'] = 3. * u['s']

        def apply_nonlinear(self, p, u, r):
            r['s'] = u['s'] + .2 * np.sin(u['s']) - p['x'] - p['w']
            r['y'] = 3. * u['s'] - u['y']

        def linearize(self, p, u, r):
            return {('s', 's'): np.array([[1. + .2 * np.cos(u['s'])]]), ('s', 'x'): -np.eye(1), ('s', 'w'): -np.eye(1), ('y', 's'): 3. * np.eye(1)}

    class Obj(Component):
        """what it makes depends on objects"""
        def __init__(self):
            super(Obj, self).__init__()
            self.add_param('x', 0.)
            self.add_param('how', 'twice', pass_by_obj=True)
            self.add_output('y', 0.)
            self.add_output('said', '', pass_by_obj=True)
            self.add_output('seen', [0], pass_by_obj=True)

        def solve_nonlinear(self, p, u, r):
            k = {'twice': 2., 'thrice': 3.}[p['how']]
            u['y'] = k * p['x'] ** 2
            u['said'] = '%s %.3f' % (p['how'], p['x'])
            u['seen'] = [float(p['x'])]

        def linearize(self, p, u, r):
            return {('y', 'x'): np.array([[2. * {'twice': 2., 'thrice': 3.}[p['how']] * p['x']]])}

    class Late(Component):
        """uses objects"""
        def __init__(self):
            super(Late, self).__init__()
            self.add_param('seen', [0], pass_by_obj=True)
            self.add_param('y', 0.)
            self.add_output('z', 0.)

        def solve_nonlinear(self, p, u, r):
            u['z'] = p['y'] + len(p['seen'])

        def linearize(self, p, u, r):
            return {('z', 'y'): np.eye(1)}
    return Non, Lin, Impl, Obj, Late


def make(name, extra=0, rev_extra=0):
    """-> problem before setup, names of inputs, of outputs"""
    from openmdao.api import (Problem, Group, IndepVarComp, NLGaussSeidel, Newton, ScipyGMRES, DirectSolver, LinearGaussSeidel, Brent, RunOnce,
                              MetaModel, ResponseSurface, ExecComp, SubProblem, Driver)
    Non, Lin, Impl, Obj, Late = classes()
    prob = Problem(root=Group())

    class D(Driver):
        def run(self, problem):
            self._problem = problem
            super(D, self).run(problem)
    prob.driver = D()
    root = prob.root
    root.add('ind', IndepVarComp([('x', 1.), ('w', .5)]), promotes=['*'])
    ins, of = ['x', 'w'], ['f']
    quiet = []

    def pair(g, a=.3, b=1.):
        g.add('ca', Lin(a, 1., 'v', 'x', 'u'), promotes=['*'])
        g.add('cb', Lin(a, b, 'u', 'w', 'v'), promotes=['*'])

    if name == 'chain':
        root.add('arr', IndepVarComp('a', np.array([1., 2., 3.]), units='m'), promotes=['*'])
        root.add('c', Non(2., 2, 'cm'))
        root.connect('a', 'c.i', src_indices=[2, 0])
        root.connect('x', 'c.j')
        g = root.add('g', Group(), promotes=['w', 'f'])
        g.add('d', Lin(1.5, 2., 'i', 'w', 'o'), promotes=['w'])
        g.add('e', Lin(1., .5, 'o', 'w', 'f'), promotes=['w', 'f'])
        g.connect('d.o', 'e.o')
        root.connect('c.o', 'g.d.i', src_indices=[1])
        ins = ['x', 'w', 'a']
        of = ['f', 'c.o']
    elif name in ('cyc', 'newton', 'nest', 'assemble', 'scaled'):
        g = root if name in ('cyc',) else root.add('g', Group(), promotes=['*'])
        pair(g)
        root.add('last', Lin(1., 1., 'u', 'v', 'f'), promotes=['*'])
        if name in ('newton', 'assemble', 'scaled'):
            g.nl_solver = Newton()
            g.nl_solver.options['atol'] = 1e-12
            g.ln_solver = DirectSolver()
            if name == 'assemble':
                g.ln_solver.options['jacobian_method'] = 'assemble'
        else:
            g.nl_solver = NLGaussSeidel()
            g.nl_solver.options['maxiter'] = 60
            g.nl_solver.options['atol'] = 1e-13
            g.nl_solver.options['rtol'] = 1e-14
            g.ln_solver = ScipyGMRES()
            if name == 'nest':
                root.ln_solver = LinearGaussSeidel()
        if name == 'scaled':
            for c in ('ca', 'cb'):
                pass
            prob.driver.add_desvar('x', scaler=3., adder=1.)
            prob.driver.add_desvar('w', scaler=.5)
            prob.driver.add_objective('f', scaler=10.)
            prob.driver.add_constraint('u', upper=3., scaler=2.)
        of = ['f', 'u']
    elif name == 'impl':
        g = root.add('g', Group(), promotes=['*'])
        g.add('i', Impl(), promotes=['*'])
        g.nl_solver = Newton()
        g.nl_solver.options['atol'] = 1e-12
        g.ln_solver = ScipyGMRES()
        root.add('last', Lin(1., 1., 'y', 's', 'f'), promotes=['*'])
        of = ['f', 's']
    elif name in ('fdsub', 'fdroot', 'fdcomp', 'cscomp'):
        t = {'fdcomp': 'fd', 'cscomp': 'cs'}.get(name)
        g = root.add('g', Group(), promotes=['*'])
        g.add('ca', Lin(.7, 1., 'x', 'w', 'u', fd=t), promotes=['*'])
        g.add('cb', Lin(1.3, 2., 'u', 'x', 'v', fd=t), promotes=['*'])
        root.add('last', Lin(1., 1., 'u', 'v', 'f', fd='fd' if name == 'fdcomp' else None), promotes=['*'])
        if name == 'fdsub':
            g.deriv_options['type'] = 'fd'
        if name == 'fdroot':
            root.deriv_options['type'] = 'fd'
            root.deriv_options['form'] = 'central'
            root.deriv_options['step_size'] = 1e-4
        of = ['f', 'v']
    elif name == 'pbo':
        root.add('how', IndepVarComp('how', 'twice', pass_by_obj=True), promotes=['*'])
        root.add('o', Obj(), promotes=['*'])
        root.add('late', Late(), promotes=['*'])
        root.add('last', Lin(1., 1., 'z', 'w', 'f'), promotes=['*'])
        ins = ['x', 'w', 'how']
    elif name == 'free':
        root.add('c', Lin(2., 3., 'x', 'q', 'y'), promotes=['x', 'y'])
        g = root.add('g', Group(), promotes=['y', 'f'])
        g.add('d', Non(.5, 2), promotes=['o'])
        g.add('e', ExecComp('f=sum(o)+y*k', o=np.zeros(2)), promotes=['*'])
        ins = ['x', 'w', 'c.q', 'g.d.i', 'g.d.j', 'g.k']
    elif name == 'brent':
        g = root.add('g', Group(), promotes=['*'])
        g.add('i', Impl(), promotes=['*'])
        g.nl_solver = Brent()
        g.nl_solver.options['lower_bound'] = -50.
        g.nl_solver.options['upper_bound'] = 50.
        g.nl_solver.options['state_var'] = 's'
        g.nl_solver.options['xtol'] = 1e-13
        g.nl_solver.options['rtol'] = 1e-14
        g.ln_solver = DirectSolver()
        root.add('last', Lin(1., 1., 'y', 's', 'f'), promotes=['*'])
        of = ['f', 's']
    elif name == 'meta':
        mm = MetaModel()
        mm.add_param('x', 0.)
        mm.add_param('w', 0.)
        mm.add_output('y', 0.)
        mm.default_surrogate = ResponseSurface()
        pts = [(a, b) for a in (-1., 0., 1.5) for b in (0., 1., 2.)]
        root.add('mm', mm, promotes=['*'])
        quiet.append(lambda p: (p.__setitem__('train:x', [a for a, b in pts]), p.__setitem__('train:w', [b for a, b in pts]),
                                p.__setitem__('train:y', [a * a + 2. * b + a * b for a, b in pts])))
        root.add('last', Lin(1., 1., 'y', 'x', 'f'), promotes=['*'])
    elif name == 'sub':
        sub = Problem(root=Group())
        sub.root.add('si', IndepVarComp([('x', 0.), ('w', 0.)]), promotes=['*'])
        sub.root.add('c', Lin(2., 3., 'x', 'w', 'y'), promotes=['*'])
        root.add('s', SubProblem(sub, params=['x', 'w'], unknowns=['y']), promotes=['*'])
        root.add('last', Lin(1., 1., 'y', 'x', 'f'), promotes=['*'])
    elif name == 'order':
        # written in the wrong order: setup has to sort it, again whenever something is added
        names = ['last', 'mid'] + ['e%d' % i for i in range(extra)]
        root.add('last', Lin(1., 1., 'm', 'w', 'f'), promotes=['*'])
        root.add('mid', Lin(.5, 1., 'x', 'e', 'm'), promotes=['*'])
        for i in range(extra):
            add_extra(prob, i)
        for i in range(rev_extra):
            pass
    return prob, ins, of, quiet


def add_extra(prob, i):
    """a component upstream of everything, written last"""
    Non, Lin, Impl, Obj, Late = classes()
    prob.root.add('e%d' % i, Lin(1.1, .3, 'x', 'e' if 0 else 'w', 'e%d' % i if i else 'e'), promotes=['x', 'w', 'e%d' % i if i else 'e'])


POINTS = {'s': dict(x=1.3, w=.4, a=[.5, 1.5, -1.], how='thrice'), 'z': dict(x=-.6, w=1.2, a=[2., 0., 1.], how='twice'),
          'E': dict(x=.9, w=-.7, a=[1., -2., .25], how='thrice')}
FREE = {'c.q': (.7, -1.1, 2.), 'g.d.i': ([1., 2.], [-.5, .25], [3., 0.]), 'g.d.j': (.1, .2, .3), 'g.k': (1., -1., .5)}


def put(prob, ins, at, quiet):
    for n in ins:
        if n in FREE:
            v = FREE[n]['szE'.index(at)]
        else:
            v = POINTS[at][n]
        prob[n] = np.array(v) if isinstance(v, list) else v


def values(prob):
    r = prob.root
    d = {}
    for k, vec in (('u', r.unknowns), ('p', None)):
        if vec is not None:
            for n in vec:
                d[k, n] = copy.deepcopy(vec[n])
    for s in r.subsystems(recurse=True):
        if hasattr(s, 'linearize') and not hasattr(s, 'nl_solver'):
            for n in s.params:
                d['p', s.pathname + '.' + n] = copy.deepcopy(s.params[n])
    return d


def options(prob):
    d = {}

    def take(key, opts):
        for k, v in opts.items():
            d[key, k] = copy.deepcopy(v) if not callable(v) else v
    for s in prob.root.subsystems(recurse=True, include_self=True):
        take(s.pathname + ' deriv', s.deriv_options)
        for a in ('nl_solver', 'ln_solver'):
            if hasattr(s, a):
                take(s.pathname + ' ' + a, getattr(s, a).options)
    take('driver', prob.driver.options)
    return d


def diff(a, b, tol):
    for k in a:
        if k not in b:
            return '%s missing' % (k,)
        x, y = a[k], b[k]
        if isinstance(x, (float, np.ndarray)) and np.asarray(x).dtype.kind == 'f':
            if np.shape(x) != np.shape(y):
                return '%s: shape %s %s' % (k, np.shape(x), np.shape(y))
            if not (np.array_equal(x, y) if tol == 0. else np.allclose(x, y, rtol=tol, atol=tol)):
                return '%s: %r instead of %r' % (k, x, y)
        elif not (x == y):
            return '%s: %r instead of %r' % (k, x, y)
    if set(a) != set(b):
        return 'names differ'


def grad(prob, op, wrt, of):
    if op == 'f':
        return prob.calc_gradient(wrt, of, mode='fwd')
    if op == 'v':
        return prob.calc_gradient(wrt, of, mode='rev')
    if op == 'd':
        return prob.calc_gradient(wrt, of, mode='fd')
    return prob.driver.calc_gradient(wrt, of) if 0 else prob.calc_gradient(wrt, of, return_format='dict')


def flat(J):
    if isinstance(J, dict):
        return np.concatenate([np.ravel(J[o][i]) for o in J for i in J[o]])
    return np.array(J)


_ref = {}


def reference(name, at, extra, ops):
    """a problem built for this, run once; gradients from further ones of its kind"""
    key = (name, at, extra)
    if key not in _ref:
        out = {}
        for op in [None] + list('fvdc'):
            prob, ins, of, quiet = make(name, extra)
            prob.setup(check=False)
            for f in quiet:
                f(prob)
            if at:
                put(prob, ins, at, quiet)
            prob.run()
            if op is None:
                out['values'] = values(prob)
            else:
                wrt = [n for n in ins if n in ('x', 'w', 'a')]
                try:
                    out[op] = flat(grad(prob, op, wrt, of))
                except Exception as err:
                    out[op] = repr(err)
        _ref[key] = out
    return _ref[key]


def go(case, R):
    name, ops = case
    if 'V' in ops:
        ops = ops.replace('V', 'A')
    extra = 0
    prob, ins, of, quiet = make(name, 0)
    wrt = [n for n in ins if n in ('x', 'w', 'a')]
    prob.setup(check=False)
    for f in quiet:
        f(prob)
    tol = 0. if name in EXACT else 1e-7
    at = None           # the point that is set
    ran = False         # values belong to the point
    moved = False       # inputs were left at a perturbed point
    ever = False        # the model has been run since setup
    for i, op in enumerate(ops):
        if op in 'sz':
            put(prob, ins, op, quiet)
            at, ran = op, False
        elif op in 'ro':
            prob.run() if op == 'r' else prob.run_once()
            ran = ever = True
            moved = False
        elif op in 'SA':
            if op == 'A':
                add_extra(prob, extra)
                extra += 1
            prob.setup(check=False)
            for f in quiet:
                f(prob)
            at, ran, ever, moved = None, False, False, False
        else:
            v0, o0 = values(prob), options(prob)
            bad = None
            if op in 'fvdc':
                try:
                    J = flat(grad(prob, op, wrt, of))
                except Exception as err:
                    J = bad = repr(err)
                if ran:
                    want = reference(name, at, extra, ops)[op]
                    if isinstance(want, str):
                        R.check(bad is not None, 'gradient-error', '%s: %s but %s' % (ops[:i + 1], J, want))
                    else:
                        t = 1e-3 if moved else 1e-6
                        R.check(bad is None and np.allclose(J, want, rtol=t, atol=t), 'gradient', lambda: '%s: %s instead of %s' % (ops[:i + 1], J, want))
                elif bad:
                    R.note('no-gradient')
            elif op == 'p':
                if name == 'fdroot':
                    continue
                prob.check_partial_derivatives(out_stream=None)
            else:
                prob.check_total_derivatives(out_stream=None)
            if op in 'pt' and not ever:
                ran = False
                ever = True
            else:
                v1 = values(prob)
                d = diff(v0, v1, 0.)
                if d and (op in 'dt' or name == 'fdroot') and not diff(only(v0, 'u'), only(v1, 'u'), 0.) and all(close(v1[k], v0[k]) for k in v0 if ran):
                    # a known finding: inputs stay where the last perturbed run of a finite differenced root had them
                    R.fail(LEFT, '%s: %s' % (ops[:i + 1], d))
                    moved, d = True, None
                R.check(d is None, 'values-changed:%s' % kind(op), lambda: '%s: %s' % (ops[:i + 1], d))
            d2 = diff(o0, options(prob), 0.)
            R.check(d2 is None, 'options-changed:%s' % kind(op), lambda: '%s: %s' % (ops[:i + 1], d2))
        R.step()
        R.state((name, ops[:i + 1]))
    put(prob, ins, 'E', quiet)
    prob.run()
    ref = reference(name, 'E', extra, ops)
    d = diff(ref['values'], values(prob), tol)
    R.check(d is None, 'values', lambda: '%s: %s' % (ops, d))
    for op in 'fv':
        want = ref[op]
        if not isinstance(want, str):
            J = flat(grad(prob, op, wrt, of))
            R.check(np.allclose(J, want, rtol=1e-6, atol=1e-6), 'gradient', lambda: '%s then %s: %s instead of %s' % (ops, op, J, want))
        R.step()


LEFT = 'finite-differenced-totals-leave-inputs-of-the-last-perturbed-run'


def only(d, k):
    return {n: v for n, v in d.items() if n[0] == k}


def close(a, b):
    if isinstance(a, (float, np.ndarray)) and np.asarray(a).dtype.kind == 'f':
        return np.allclose(a, b, rtol=1e-3, atol=1e-3)
    return type(a) is type(b)


def kind(op):
    return {'d': 'fd', 't': 'totals-check', 'p': 'partials-check'}.get(op, 'gradient')
