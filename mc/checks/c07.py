"""C07: optimizer callbacks always answer for the point they are asked about."""
from itertools import product
import sys
import types
import warnings
import numpy as np
from mc.models import flat, relerr

PID = 'C07'
LEVEL = 'model_checking'
RULE = ('(A) scipy.optimize.minimize is replaced by an adversary: for every driver configuration (optimizer x '
        'scaling/indices x constraint set) all sequences up to depth 3 (thorough 4) of objective, objective '
        'gradient, constraint and constraint gradient requests over 3 points (some never evaluated, some returned '
        'to) and every reported optimum; (B) all declarations shape x indices x scaler x adder x bound kind x '
        'optimizer, with the delivered start, bounds and constraint list compared entry by entry; (C) the real '
        'scipy algorithms on all small problems of a grammar with every callback checked; (Y) the same adversary '
        'as a stand-in for the pyoptsparse package.')
ASSUMPTIONS = ['the pyoptsparse package is not installed: its documented interface is played by the harness']
NOTE = 'all request sequences in the bounds are played against the real driver; answers compared with a numpy reference'
BIG = 1e300

GRAD = ['CG', 'BFGS', 'Newton-CG', 'L-BFGS-B', 'TNC', 'SLSQP']
ALL = ['Nelder-Mead', 'Powell', 'CG', 'BFGS', 'Newton-CG', 'L-BFGS-B', 'TNC', 'COBYLA', 'SLSQP']
BND = ['L-BFGS-B', 'TNC', 'SLSQP']
CON = ['COBYLA', 'SLSQP']

# desvar x (3 entries): indices, scaler, adder ; desvar z (scalar): scaler
DV = {'plain': (None, 1., 0., 1.), 'idx': ([2, 0], -2., 1., .5), 'sca': (None, 4., -1., -3.)}
# constraint sets over y (3 entries) and w (scalar): (name, indices, lower, upper, equals, scaler, adder)
CS = {'none': [],
      'lo': [('c.y', None, -3., None, None, 1., 0.)],
      'up': [('c.y', [1, 2], None, 7., None, 2., 1.)],
      'both': [('c.y', [2, 0], -5., np.array([6., 8.]), None, -3., 0.), ('c.w', None, None, 9., None, 1., 0.)],
      'eq': [('c.w', None, None, None, 1.5, 2., -1.), ('c.y', [0, 1], None, None, np.array([1., 2.]), 1., 0.)],
      'mix': [('c.w', None, -1., 1., None, 1., 0.), ('c.y', None, np.array([-1., -2., -3.]), None, None, 1., 0.),
              ('c.v', None, None, None, 0., -1., 0.)]}


def cases(tier):
    q = tier == 'quick'
    out = []
    kinds = {'SLSQP': 'fgcj', 'COBYLA': 'fc'}
    for opt in ('SLSQP', 'COBYLA', 'Newton-CG', 'L-BFGS-B', 'Nelder-Mead'):
        ks = kinds.get(opt, 'fg' if opt in GRAD else 'f')
        for dv in DV:
            for cs in CS if opt in CON else ('none',):
                if q and opt == 'COBYLA' and dv == 'sca':
                    continue
                ks2 = ks if cs != 'none' else ks.replace('c', '').replace('j', '')
                al = [k + str(p) for k in ks2 for p in range(3)]
                for a in al:
                    for b in [None] + al:
                        if q and dv == 'sca' and opt == 'SLSQP' and cs not in ('mix', 'none') and b and b[0] == 'f':
                            continue
                        out.append(['A', opt, dv, cs, [a] + ([b] if b else []), [['']] if not b else
                                    [[c] for c in al] if q else [[c] for c in al] + [list(c) for c in product(al, al)]])
    for opt in ALL:
        for kind in ('dv', 'con'):
            if kind == 'con' and opt not in CON or kind == 'dv' and opt in ('CG', 'BFGS', 'Powell'):
                continue
            for sh in ('s', '1', '3', 'm'):
                ixs = [None, [0]] if sh in 's1' else [None, [1], [2, 0]] + ([[3, 0, 1]] if sh == 'm' else [])
                for ix in ixs:
                    for sc, ad in product(('1', '2', 'n', 'a', 'w'), ('0', '1', 'a')):
                        for bd in ('n', 'f', 'l', 'u', 'a', 'A', 'U') if kind == 'dv' else ('f', 'l', 'u', 'a', 'A', 'U', 'e', 'E'):
                            out.append(['B', opt, kind, sh, ix, sc, ad, bd])
    for opt in ALL:
        for dv in DV:
            for start in range(3):
                for cs in (['none', 'lo', 'up', 'both', 'eq', 'mix'] if opt == 'SLSQP' else ['none', 'lo', 'up', 'both']
                           if opt == 'COBYLA' else ['none']):
                    for fmt in ('cheap', 'fd') if opt in GRAD else ('cheap',):
                        out.append(['C', opt, dv, cs, start, fmt])
    for dv in DV:
        for cs in CS:
            al = [k + str(p) for k in 'fg' for p in range(3)]
            for a in al:
                out.append(['Y', dv, cs, a, [list(c) for k in range(3 if q else 4) for c in product(al, repeat=k)]])
    for w0, w1 in product(WAYS, repeat=2):
        out.append(['S', w0, w1, [[m, ix, o] for m in ('fwd', 'rev') for ix in DIX for o in (0, 1)]])
    for b0, b1 in product(BOUNDS, repeat=2):
        for t0, t1 in product(TOLS, repeat=2):
            for mode in ('fwd', 'rev'):
                for par in (0, 1):
                    if q and t0 != 'none' and t1 != 'none' and (b0 == b1) != (t0 == t1):
                        continue
                    out.append(['T', b0, t0, b1, t1, mode, par])
    return out


def run(case, R):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            globals()['run_' + case[0].lower()](case, R)


# ------------------------------------------------------------------ model and its reference
Q = np.array([[3., 1., .5], [1., 4., -1.], [.5, -1., 5.]])
A3 = np.array([[1., 2., -1.], [0., 1., 1.], [2., 0., 1.]])


def ref(x, z):
    f = .5 * x.dot(Q).dot(x) - x.sum() + (z - 1.) ** 2 * 2. + x[0] * z * .5
    y = A3.dot(x) + np.array([.5, 0., 1.]) * z
    w = x[1] + z
    v = x[0] + x[1] * .5 - z * .25
    J = {('c.f', 'x'): (Q.dot(x) - 1. + np.array([.5 * z, 0., 0.]))[None, :], ('c.f', 'z'): np.array([[4. * (z - 1.) + .5 * x[0]]]),
         ('c.y', 'x'): A3, ('c.y', 'z'): np.array([[.5], [0.], [1.]]),
         ('c.w', 'x'): np.array([[0., 1., 0.]]), ('c.w', 'z'): np.array([[1.]]),
         ('c.v', 'x'): np.array([[1., .5, 0.]]), ('c.v', 'z'): np.array([[-.25]])}
    return {'c.f': np.array([f]), 'c.y': y, 'c.w': np.array([w]), 'c.v': np.array([v])}, J


def build(drv, dv, cs, oscale=-2., x0=None, fd=False, log=None):
    from openmdao.api import Problem, Group, Component, IndepVarComp

    class C(Component):
        def __init__(self):
            super(C, self).__init__()
            self.add_param('x', np.zeros(3))
            self.add_param('z', 0.)
            self.add_output('f', 0.)
            self.add_output('y', np.zeros(3))
            self.add_output('w', 0.)
            self.add_output('v', 0.)

        def solve_nonlinear(self, p, u, r):
            if log is not None:
                log.append(1)
            o, _ = ref(np.array(p['x']), float(p['z']))
            u['f'], u['y'], u['w'], u['v'] = o['c.f'][0], o['c.y'], o['c.w'][0], o['c.v'][0]

        def linearize(self, p, u, r):
            _, J = ref(np.array(p['x']), float(p['z']))
            return dict(((o[2:], i), J[o, i]) for o, i in J)
    prob = Problem(root=Group(), driver=drv)
    x, z = (np.array([.5, -.25, 1.5]), .75) if x0 is None else x0
    prob.root.add('p', IndepVarComp([('x', x.copy()), ('z', z)]))
    prob.root.add('c', C())
    prob.root.connect('p.x', 'c.x')
    prob.root.connect('p.z', 'c.z')
    if fd:
        prob.root.deriv_options['type'] = 'fd'
        prob.root.deriv_options['form'] = 'central'
    ix, sc, ad, sz = DV[dv]
    drv.add_desvar('p.x', lower=-6., upper=8., scaler=sc, adder=ad, **({} if ix is None else {'indices': ix}))
    drv.add_desvar('p.z', lower=-4., scaler=sz)
    drv.add_objective('c.f', scaler=oscale)
    for n, ci, lo, up, eq, s, a in CS[cs]:
        kw = {} if ci is None else {'indices': ci}
        for k, b in (('lower', lo), ('upper', up), ('equals', eq)):
            if b is not None:
                kw[k] = b
        drv.add_constraint(n, scaler=s, adder=a, **kw)
    prob.setup(check=False)
    return prob


class Ref(object):
    """the scaled problem the optimizer should see, from the configuration alone"""
    def __init__(self, dv, cs, oscale=-2., x0=None):
        self.x, self.z = (np.array([.5, -.25, 1.5]), .75) if x0 is None else x0
        ix, self.sc, self.ad, self.sz = DV[dv]
        self.ix = [0, 1, 2] if ix is None else ix
        self.cs = CS[cs]
        self.os = oscale
        self.n = len(self.ix) + 1

    def model(self, d):
        x = self.x.copy()
        x[self.ix] = np.asarray(d[:-1]) / self.sc - self.ad
        return x, float(d[-1]) / self.sz

    def start(self):
        return np.append((self.x[self.ix] + self.ad) * self.sc, self.z * self.sz)

    def grad(self, J, o):
        return np.hstack([J[o, 'x'][:, self.ix] / self.sc, J[o, 'z'] / self.sz])

    def at(self, d):
        x, z = self.model(d)
        o, J = ref(x, z)
        cons = []       # (type, value, gradient), in the sense "feasible is >= 0" or "== 0"
        for n, ci, lo, up, eq, s, a in self.cs:
            ci = range(len(o[n])) if ci is None else ci
            val = (o[n] + a) * s
            G = self.grad(J, n) * s
            for k, i in enumerate(ci):
                def b(v):
                    return (np.ones(len(ci)) * v)[k]
                if eq is not None:
                    e = (b(eq) + a) * s
                    cons.append((n, k, 'eq', e - val[i], -G[i]))
                sides = [(lo, 1.), (up, -1.)]
                for v, sign in sides:
                    if v is not None:
                        sign = sign * np.sign(s)
                        cons.append((n, k, 'ineq', sign * (val[i] - (b(v) + a) * s), sign * G[i]))
        return o['c.f'][0] * self.os, self.grad(J, 'c.f')[0] * self.os, cons, (x, z, o)


def points(rf):
    s = rf.start()
    return [s, s + np.array([1., -.5, .25, 2.])[:rf.n], s * .5 - np.array([.75, 2., -1., .5])[:rf.n]]


def near(a, b, tol=1e-9):
    a, b = flat(a), flat(b)
    return a.shape == b.shape and np.all(np.abs(a - b) <= tol * np.maximum(1., np.abs(b)))


class Result(dict):
    __getattr__ = dict.__getitem__


def run_a(case, R):
    from openmdao.api import ScipyOptimizer
    import openmdao.drivers.scipy_optimizer as mod
    _, opt, dv, cs, pre, tails = case
    drv = ScipyOptimizer()
    drv.options['optimizer'] = opt
    drv.options['disp'] = False
    prob = build(drv, dv, cs)
    rf = Ref(dv, cs)
    pts = points(rf)
    refs = [rf.at(p) for p in pts]
    real = mod.minimize
    try:
        for tail in tails:
            seq = pre + [t for t in tail if t]
            for k, (n, v) in enumerate((('p.x', rf.x), ('p.z', rf.z))):
                prob[n] = v
            best = len(seq) % 3
            seen = {}

            def adversary(fun, x0, method=None, jac=None, bounds=None, constraints=(), tol=None, options=None, **kw):
                R.check(method == opt, 'method', str(method))
                R.check(near(x0, rf.start()), 'start', '%s expected %s' % (x0, rf.start()))
                R.check((jac is not None) == (opt in GRAD), 'jac-given', '')
                order = None
                for op in seq:
                    R.step()
                    p = int(op[1])
                    x = pts[p].copy()
                    want = refs[p]
                    if op[0] == 'f':
                        R.check(near(fun(x), want[0]), 'objective', '%s: %s expected %s' % (seq, 'f', want[0]))
                    elif op[0] == 'g':
                        g = jac(x)
                        R.check(near(g, want[1]), 'gradient', lambda: '%s: %s at %s expected %s' % (seq, g, op, want[1]))
                    elif op[0] == 'c':
                        got = [(c['type'], float(np.asarray(c['fun'](x, *c['args'])).ravel()[0])) for c in constraints]
                        exp = [(w[2], w[3]) for w in want[2]]
                        R.check(same_multiset(got, exp), 'constraint', lambda: '%s: %s at %s expected %s' % (seq, got, op, exp))
                    elif op[0] == 'j':
                        got = [(c['type'], c['jac'](x, *c['args'])) for c in constraints]
                        exp = [(w[2], w[4]) for w in want[2]]
                        R.check(same_multiset(got, exp), 'constraint-gradient', lambda: '%s: %s at %s expected %s' % (seq, got, op, exp))
                    R.check(near(x, pts[p], 0), 'point-modified', '%s %s' % (x, pts[p]))
                seen['x'] = x = pts[best].copy()
                return Result(x=x, success=True, fun=0., message='', status=0, nfev=1, nit=1)
            mod.minimize = adversary
            prob.run()
            x, z, o = refs[best][3]
            ok = near(prob['p.x'], x) and near(prob['p.z'], z)
            R.check(ok, 'final-point', lambda: '%s: %s %s expected %s %s' % (seq, prob['p.x'], prob['p.z'], x, z))
            R.check(all(near(prob[k], o[k]) for k in o), 'final-model',
                    lambda: '%s: %s expected %s' % (seq, [(k, prob[k]) for k in o], o))
            R.check(drv.exit_flag == 1, 'exit-flag', '')
            R.state([opt, dv, cs, seq])
            R.trace()
    finally:
        mod.minimize = real


def same_multiset(got, want):
    if len(got) != len(want):
        return False
    left = list(want)
    for t, v in got:
        for k, (t2, v2) in enumerate(left):
            if t == t2 and (near(v, v2) or (t == 'eq' and near(v, -np.asarray(v2)))):
                del left[k]
                break
        else:
            return False
    return True


# ------------------------------------------------------------------ declarations
SHAPES = {'s': [], '1': [1], '3': [3], 'm': [2, 2]}


def run_b(case, R):
    from openmdao.api import ScipyOptimizer, Problem, Group, IndepVarComp, ExecComp
    import openmdao.drivers.scipy_optimizer as mod
    _, opt, kind, sh, ix, sc, ad, bd = case
    n = int(np.prod(SHAPES[sh])) if SHAPES[sh] else 1
    sel = list(range(n)) if ix is None else ix
    m = len(sel)
    s = {'1': 1., '2': 2., 'n': -.5, 'a': np.array([2., .5, 3., .25])[:m], 'w': np.array([2., -.5, -3., 1.])[:m]}[sc]
    a = {'0': 0., '1': 1.5, 'a': np.array([1., -2., .5, 3.])[:m]}[ad]
    lo, up = np.array([-1., -2., -3., -4.])[:m], np.array([10., 20., 30., 40.])[:m]
    lo, up, eq = {'n': (None, None, None), 'f': (-5., 50., None), 'l': (-5., None, None), 'u': (None, 50., None), 'a': (lo, up, None),
                  'A': (lo, None, None), 'U': (None, up, None), 'e': (None, None, 4.), 'E': (None, None, up)}[bd]
    v0 = np.array([1.25, -2.5, 3.75, 7.5])[:n]
    v0 = float(v0[0]) if sh == 's' else v0.reshape(SHAPES[sh])
    drv = ScipyOptimizer()
    drv.options['optimizer'] = opt
    drv.options['disp'] = False
    prob = Problem(root=Group(), driver=drv)
    prob.root.add('p', IndepVarComp([('x', v0), ('z', 2.)]))
    prob.root.add('c', ExecComp('y=2.*x', x=v0 * 0., y=v0 * 0.))
    prob.root.add('d', ExecComp('f=z*3.'))
    prob.root.connect('p.x', 'c.x')
    prob.root.connect('p.z', 'd.z')
    kw = {'scaler': s, 'adder': a}
    if ix is not None:
        kw['indices'] = ix
    for k, b in (('lower', lo), ('upper', up), ('equals', eq)):
        if b is not None:
            kw[k] = b
    drv.add_desvar('p.z', lower=-7., upper=9.)
    if kind == 'dv':
        drv.add_desvar('p.x', **kw)
    else:
        drv.add_desvar('p.x')
        drv.add_constraint('c.y', **kw)
    drv.add_objective('d.f')
    prob.setup(check=False)
    got = {}
    sv, av = np.ones(m) * s, np.ones(m) * a

    def capture(fun, x0, method=None, jac=None, bounds=None, constraints=(), tol=None, options=None, **kwargs):
        got.update(x0=np.array(x0), bounds=bounds, cons=[(c['type'], float(np.asarray(c['fun'](x0, *c['args'])).ravel()[0]),
                                                          c['jac'](x0, *c['args']) if opt == 'SLSQP' else None) for c in constraints],
                   options=dict(options), tol=tol)
        return Result(x=x0, success=False, fun=0., message='', status=0)
    drv.options['maxiter'] = 17
    drv.options['tol'] = 1e-5
    real = mod.minimize
    mod.minimize = capture
    try:
        prob.run()
    finally:
        mod.minimize = real
    R.step(2)
    R.check(got['options'].get('maxiter') == 17 and got['tol'] == 1e-5, 'options', str(got['options']))
    R.check(drv.exit_flag == 0, 'exit-flag', '')
    inf = np.full(m, np.inf)
    L = -inf if lo is None else (lo + av) * sv
    U = inf if up is None else (up + av) * sv
    if lo is None:
        L = np.where(sv > 0, -inf, inf)
    if up is None:
        U = np.where(sv > 0, inf, -inf)
    L, U = np.minimum(L, U), np.maximum(L, U)
    if kind == 'dv':
        R.check(near(got['x0'], np.append(2., (flat(v0)[sel] + av) * sv)), 'start', str(got['x0']))
        if opt in BND:
            b = [(-np.inf if l is None or l < -BIG else l, np.inf if u is None or u > BIG else u) for l, u in got['bounds']]
            exp = [(-7., 9.)] + list(zip(L, U))
            R.check(len(b) == len(exp) and all(x == y or abs(x - y) < 1e-12 * (1 + abs(y)) for p, q in zip(b, exp) for x, y in zip(p, q)),
                    'bounds', '%s expected %s' % (b, exp))
        R.check(not got['cons'], 'constraints-extra', str(got['cons']))
    else:
        val = (2. * flat(v0)[sel] + av) * sv
        exp, G = [], np.zeros((m, n + 1))
        for k, i in enumerate(sel):
            G[k, 1 + i] = 2. * sv[k]
        for k in range(m):
            if eq is not None:
                exp.append(('eq', (np.ones(m) * eq)[k] * sv[k] + av[k] * sv[k] - val[k], -G[k]))
            else:
                if np.isfinite(L[k]):
                    exp.append(('ineq', val[k] - L[k], G[k]))
                if np.isfinite(U[k]):
                    exp.append(('ineq', U[k] - val[k], -G[k]))
        R.check(same_multiset([c[:2] for c in got['cons']], [c[:2] for c in exp]), 'constraints',
                '%s expected %s' % ([c[:2] for c in got['cons']], [c[:2] for c in exp]))
        if opt == 'SLSQP':
            R.check(same_multiset([(c[0], np.append(c[1], c[2])) for c in got['cons']], [(c[0], np.append(c[1], c[2])) for c in exp]),
                    'constraint-gradients', '%s expected %s' % (got['cons'], exp))
    R.state(case)
    R.trace()


# ------------------------------------------------------------------ real algorithms
STARTS = [None, (np.array([2., -1., .25]), -1.5), (np.array([-3., 3., 4.]), 3.)]


def run_c(case, R):
    """scipy's own algorithms, with every callback checked on the way"""
    from openmdao.api import ScipyOptimizer
    import openmdao.drivers.scipy_optimizer as mod
    _, opt, dv, cs, start, how = case
    drv = ScipyOptimizer()
    drv.options['optimizer'] = opt
    drv.options['disp'] = False
    drv.options['tol'] = 1e-9
    drv.options['maxiter'] = 400 if opt in GRAD else 3000
    prob = build(drv, dv, cs, oscale=2., x0=STARTS[start], fd=how == 'fd')
    rf = Ref(dv, cs, oscale=2., x0=STARTS[start])
    real = mod.minimize
    tol = 1e-9 if how != 'fd' else 1e-4

    def spy(fun, x0, jac=None, constraints=(), **kw):
        def f(x, *a):
            x = np.array(x)
            r = fun(x, *a)
            R.step()
            R.check(near(r, rf.at(x)[0]), 'objective', 'real %s' % opt)
            return r

        def g(x, *a):
            x = np.array(x)
            r = jac(x, *a)
            R.step()
            e = rf.at(x)[1]
            R.check(near(r, e, tol), 'gradient', 'real %s: %s expected %s' % (opt, r, e))
            return r

        def wrap(c, k):
            fun0, jac0 = c['fun'], c.get('jac')

            def cf(x, *a):
                r = fun0(np.array(x), *a)
                w = rf.at(x)[2]
                R.check(any(near(r, q[3]) or q[2] == 'eq' and near(r, -q[3]) for q in w), 'constraint', 'real %s' % opt)
                return r

            def cj(x, *a):
                r = jac0(np.array(x), *a)
                w = rf.at(x)[2]
                R.check(any(near(r, q[4], tol) or q[2] == 'eq' and near(r, -q[4], tol) for q in w), 'constraint-gradient', 'real %s' % opt)
                return r
            c = dict(c, fun=cf)
            if jac0 is not None:
                c['jac'] = cj
            return c
        return real(f, x0, jac=None if jac is None else g, constraints=[wrap(c, k) for k, c in enumerate(constraints)], **kw)
    mod.minimize = spy
    try:
        prob.run()
    finally:
        mod.minimize = real
    res = drv.result
    val, _, cons, (x, z, o) = rf.at(res.x)
    R.check(near(prob['p.x'], x) and near(prob['p.z'], z), 'final-point', 'real %s' % opt)
    R.check(all(near(prob[k], o[k]) for k in o), 'final-model', 'real %s' % opt)
    R.check(bool(drv.exit_flag) == bool(res.success), 'exit-flag', 'real %s' % opt)
    if res.success:
        R.note('successful-optimizations')
        for n, k, t, v, g in cons:
            R.check(abs(v) < 1e-3 if t == 'eq' else v > -1e-3, 'infeasible-optimum', '%s %s %s' % (n, t, v))
    if opt in GRAD and how != 'fd' and cs == 'none':
        R.check(np.abs(rf.at(res.x)[1]).max() < 1e-3, 'convex-problem-not-solved', '%s %s' % (opt, res.message))
    R.state(case)
    R.trace()


# ------------------------------------------------------------------ pyoptsparse stand-in
def standin(play):
    """a module with the interface of pyoptsparse, and a driver that uses it; play['go'](problem, sens) is the optimizer"""
    fake = types.ModuleType('pyoptsparse')

    class Optimization(object):
        def __init__(self, title, objfun):
            self.objfun, self.vars, self.objs, self.cons, self.constraints = objfun, [], [], [], {}

        def addVarGroup(self, name, n, type='c', value=0., lower=None, upper=None, **kw):
            self.vars.append((name, n, np.ones(n) * value, np.ones(n) * lower, np.ones(n) * upper))

        def finalizeDesignVariables(self):
            pass

        def addObj(self, name, **kw):
            self.objs.append(name)

        def addConGroup(self, name, n, lower=None, upper=None, scale=1., linear=False, wrt=None, jac=None):
            self.cons.append((name, n, lower, upper, linear, wrt, jac))
            con = types.SimpleNamespace(name=name, ncon=n, value=np.zeros(n))
            for k, v in (('lower', lower), ('upper', upper)):
                setattr(con, k, [None] * n if v is None else list(np.ones(n) * v))
            self.constraints[name] = con

    class Sol(object):
        def __init__(self, d):
            self.d = d
            self.optInform = {'value': 1}

        def getDVs(self):
            return dict((k, np.array(v)) for k, v in self.d.items())

    class SNOPT(object):
        def __init__(self, *a, **k):
            pass

        def setOption(self, *a):
            pass

        def __call__(self, prob, sens=None, **kw):
            return Sol(play['go'](prob, sens))
    fake.Optimization, fake.SNOPT, fake.SLSQP = Optimization, SNOPT, SNOPT
    fake.OPT = lambda *a, **k: SNOPT()
    for k in ('pyoptsparse', 'openmdao.drivers.pyoptsparse_driver'):
        sys.modules.pop(k, None)
    sys.modules['pyoptsparse'] = fake
    try:
        from openmdao.drivers.pyoptsparse_driver import pyOptSparseDriver
        drv = pyOptSparseDriver()
    finally:
        sys.modules.pop('pyoptsparse', None)
        sys.modules.pop('openmdao.drivers.pyoptsparse_driver', None)
    return fake, drv


def run_y(case, R):
    _, dv, cs, first, tails = case
    play = {}
    fake, drv = standin(play)
    drv.options['optimizer'] = 'SLSQP'
    drv.options['print_results'] = False
    prob = build(drv, dv, cs)
    rf = Ref(dv, cs)
    pts = points(rf)
    refs = [rf.at(p) for p in pts]
    names = ['p.x', 'p.z']
    cut = [slice(0, rf.n - 1), slice(rf.n - 1, rf.n)]
    sys.modules['pyoptsparse'] = fake
    try:
        for tail in tails:
            seq = [first] + tail
            best = len(seq) % 3
            prob['p.x'], prob['p.z'] = rf.x, rf.z

            def dvs(p):
                return dict((n, pts[p][c].copy()) for n, c in zip(names, cut))

            def go(op, sens):
                start = np.concatenate([v[2] for v in op.vars])
                R.check([v[0] for v in op.vars] == names and near(start, rf.start()), 'py:start', str(op.vars))
                ix, sc, ad, szz = DV[dv]
                b = sorted([(-6. + ad) * sc, (8. + ad) * sc])
                R.check(near(op.vars[0][3], np.full(rf.n - 1, b[0])) and near(op.vars[0][4], np.full(rf.n - 1, b[1])), 'py:bounds', str(op.vars))
                R.check(op.objs == ['c.f'], 'py:objective', str(op.objs))
                R.check(sorted(c[0] for c in op.cons) == sorted(c[0] for c in CS[cs]), 'py:constraints', str(op.cons))
                for name, n, lo, up, lin, wrt, jac in op.cons:
                    c = [c for c in CS[cs] if c[0] == name][0]
                    k = (3 if name == 'c.y' else 1) if c[1] is None else len(c[1])
                    l, u = (c[4], c[4]) if c[4] is not None else (c[2], c[3])
                    l = -np.inf if l is None else l
                    u = np.inf if u is None else u
                    e = np.sort([(np.ones(k) * l + c[6]) * c[5], (np.ones(k) * u + c[6]) * c[5]], axis=0)
                    g = [np.where(np.abs(np.ones(k) * (d if v is None else v)) > BIG, d, np.ones(k) * (d if v is None else v)) for v, d in ((lo, -np.inf), (up, np.inf))]
                    R.check(n == k and all(np.all((g[i] == e[i]) | (np.abs(g[i] - e[i]) < 1e-9)) for i in (0, 1)), 'py:constraint-bounds', '%s %s %s expected %s' % (name, lo, up, e))
                for o in seq:
                    R.step()
                    p = int(o[1])
                    x, z, om = refs[p][3]
                    if o[0] == 'f':
                        fd, fail = op.objfun(dvs(p))
                        R.check(not fail and near(fd['c.f'], refs[p][0]), 'py:objective', '%s %s' % (seq, fd))
                        for n, ci, lo, up, eq, s, a in CS[cs]:
                            e = (om[n] + a) * s
                            e = e if ci is None else e[ci]
                            R.check(near(fd.get(n, np.nan), e), 'py:constraint', '%s %s' % (seq, fd))
                    else:
                        # pyoptsparse evaluates the functions at a point before it asks for their gradients there
                        fd, fail = op.objfun(dvs(p))
                        sd, fail = sens(dvs(p), fd)
                        _, J = ref(x, z)
                        E = dict((c[0], rf.grad(J, c[0])[range(len(om[c[0]])) if c[1] is None else c[1]] * c[5]) for c in CS[cs])
                        E['c.f'] = refs[p][1][None, :]
                        R.check(not fail, 'py:fail', '')
                        for n in E:
                            for v, c in zip(names, cut):
                                g = sd[n].get(v)
                                if g is None:
                                    R.check(not E[n][:, c].any(), 'py:gradient-missing', '%s %s' % (n, v))
                                else:
                                    R.check(relerr(g, E[n][:, c]) < 1e-9, 'py:gradient', lambda: '%s %s %s: %s expected %s' % (seq, n, v, g, E[n][:, c]))
                return dvs(best)
            play['go'] = go
            prob.run()
            x, z, o = refs[best][3]
            R.check(near(prob['p.x'], x) and near(prob['p.z'], z), 'py:final-point', '')
            R.check(all(near(prob[k], o[k]) for k in o), 'py:final-model', '')
            R.state(['Y', dv, cs, seq])
            R.trace()
    finally:
        sys.modules.pop('pyoptsparse', None)


# ------------------------------------------------------------------ sparse Jacobians for pyoptsparse
WAYS = ['full', 'prom', 'i0', 'i21', 'i33', 'gfull', 'g13', 'none']
WIX = {'i0': [0], 'i21': [2, 1], 'i33': [3, 3], 'g13': [1, 3]}
DIX = [None, [2, 0], [3], [1, 2, 3]]


def run_s(case, R):
    """every way two components may read a design variable x every selection of its entries: the structure announced
    to the optimizer has room for all derivatives, and the values sent later fill it correctly"""
    from openmdao.api import Problem, Group, Component, IndepVarComp
    _, w0, w1, opts = case
    n = 4
    x0 = np.array([.5, -1.5, 2., .75])

    class K(Component):
        def __init__(self, m, c):
            super(K, self).__init__()
            self.c = c
            self.add_param('x', np.zeros(m))
            self.add_param('z', 0.)
            self.add_output('y', np.zeros(m))

        def solve_nonlinear(self, p, u, r):
            u['y'] = self.c * p['x'] ** 2 + p['z']

        def linearize(self, p, u, r):
            m = len(u['y'])
            return {('y', 'x'): np.diag(2. * self.c * p['x']), ('y', 'z'): np.ones((m, 1))}

    class D(Component):
        def __init__(self, ms):
            super(D, self).__init__()
            for k, m in enumerate(ms):
                self.add_param('y%d' % k, np.zeros(m))
            self.add_output('s', np.zeros(2))
            self.add_output('t', np.zeros(2))
            self.ms = ms

        def solve_nonlinear(self, p, u, r):
            s = [np.array(p['y%d' % k]) for k in range(len(self.ms))]
            u['s'] = np.array([sum(v.sum() for v in s), sum(v[0] * (k + 1) for k, v in enumerate(s))])
            u['t'] = 2. * u['s']

        def linearize(self, p, u, r):
            return dict(((o, 'y%d' % k), c * np.vstack([np.ones(m), np.eye(m)[0] * (k + 1)])) for k, m in enumerate(self.ms) for o, c in (('s', 1.), ('t', 2.)))
    ways = [w0, w1]
    sizes = [len(WIX.get(w, range(n))) for w in ways]
    for mode, ix, order in opts:
        play = {}
        fake, drv = standin(play)
        drv.options['optimizer'] = 'SLSQP'
        drv.options['print_results'] = False
        prob = Problem(root=Group(), driver=drv)
        root = prob.root
        pr = 'prom' in ways
        add = {}
        add['p'] = lambda: root.add('p', IndepVarComp([('x', x0.copy()), ('z', .5)]), promotes=['x'] if pr else None)
        names = []
        xn = 'x' if pr else 'p.x'
        conn = []
        for k, w in enumerate(ways):
            nm = 'c%d' % k
            if w[0] == 'g':
                def mk(k=k, nm=nm):
                    g = root.add('g%d' % k, Group())
                    g.add(nm, K(sizes[k], k + 1.), promotes=['x'])
                add[nm] = mk
                names.append('g%d.%s' % (k, nm))
                conn.append((xn, 'g%d.x' % k, WIX.get(w)))
            else:
                add[nm] = lambda k=k, nm=nm, w=w: root.add(nm, K(sizes[k], k + 1.), promotes=['x'] if w == 'prom' else None)
                names.append(nm)
                if w not in ('none', 'prom'):
                    conn.append((xn, nm + '.x', WIX.get(w)))
        add['d'] = lambda: root.add('d', D(sizes))
        for k in (['p', 'c0', 'c1', 'd'] if order else ['d', 'c1', 'c0', 'p']):
            add[k]()
        if not order:
            root.set_order(['p', 'c0' if ways[0][0] != 'g' else 'g0', 'c1' if ways[1][0] != 'g' else 'g1', 'd'])
        for s, t, i in conn:
            root.connect(s, t, **({} if i is None else {'src_indices': i}))
        for k, nm in enumerate(names):
            root.connect(nm + '.y', 'd.y%d' % k)
        root.connect('p.z', names[1] + '.z')
        drv.add_desvar(xn, lower=-9., upper=9., **({} if ix is None else {'indices': ix}))
        drv.add_desvar('p.z', lower=-9., upper=9.)
        drv.add_objective('d.s', indices=[0])
        cons = [nm + '.y' for nm in names] + ['d.t'] + ([xn] if order else [])
        for c in cons:
            drv.add_constraint(c, lower=-5.)
        root.ln_solver.options['mode'] = mode
        prob.setup(check=False)

        def want(x, z):
            """derivatives by (x, z) of every function"""
            out = {}
            S = np.zeros((2, n)), np.zeros((2, 1))
            for k, w in enumerate(ways):
                i = WIX.get(w, range(n))
                J = np.zeros((sizes[k], n))
                if w != 'none':
                    for r, c in enumerate(i):
                        J[r, c] += 2. * (k + 1.) * x[c]
                Z = np.ones((sizes[k], 1)) * (k == 1)
                out[names[k] + '.y'] = J, Z
                S = S[0] + np.vstack([J.sum(0), J[0] * (k + 1)]), S[1] + np.vstack([Z.sum(0), Z[0] * (k + 1)])
            out['d.s'] = S[0][:1], S[1][:1]
            out['d.t'] = 2. * S[0], 2. * S[1]
            if order:
                out[xn] = np.eye(n), np.zeros((n, 1))
            return out
        cols = list(range(n)) if ix is None else ix
        key = 'sparse:' + mode
        info = [w0, w1, mode, ix, order]

        def go(op, sens):
            struct = {}
            for name, m, lo, up, lin, wrt, jac in op.cons:
                R.check(m == len(want(x0, .5)[name][0]), key + ':rows', [info, name, m])
                struct[name] = (set(wrt), jac or {})
            for xs in (x0, x0 * .5 + 1.):
                dv = {xn: xs[cols].copy(), 'p.z': np.array([.25])}
                full = x0.copy()
                full[cols] = xs[cols]
                fd, fail = op.objfun(dv)
                sd, fail2 = sens(dv, fd)
                R.step(2)
                if not R.check(not fail and not fail2 and bool(sd), key + ':fail', info):
                    continue
                W = want(full, .25)
                for f in W:
                    for v, E in ((xn, W[f][0][:, cols]), ('p.z', W[f][1])):
                        if f in struct and v not in struct[f][0]:
                            R.check(not np.any(E), key + ':wrt-left-out', [info, f, v])
                            continue
                        got = sd.get(f, {}).get(v)
                        if got is None:
                            R.check(not np.any(E), key + ':missing', [info, f, v])
                            continue
                        tmpl = struct[f][1].get(v) if f in struct else None
                        R.check((tmpl is not None) == isinstance(got, dict), key + ':structure', [info, f, v, repr(tmpl), repr(got)])
                        if isinstance(got, dict):
                            r, c, d = got['coo']
                            dense = np.zeros(got['shape'])
                            np.add.at(dense, (np.array(r, dtype=int), np.array(c, dtype=int)), d)
                            R.check(list(zip(r, c)) == list(zip(*tmpl['coo'][:2])) and list(got['shape']) == list(tmpl['shape']),
                                    key + ':structure', [info, f, v, repr(tmpl), repr(got)])
                            R.note('sparse-blocks')
                            got = dense
                        R.check(got.shape == E.shape and np.abs(got - E).max() < 1e-9, key + ':value', [info, f, v, repr(got), repr(E)])
            return {xn: x0[cols].copy(), 'p.z': np.array([.5])}
        play['go'] = go
        sys.modules['pyoptsparse'] = fake
        try:
            prob.run()
        finally:
            sys.modules.pop('pyoptsparse', None)
        R.state(info)
        R.trace()


# ------------------------------------------------------------------ inactive constraints
BOUNDS = {'lo': (-2., None, None), 'up': (None, 3., None), 'two': (-2., 3., None), 'arr': (np.array([-2., -1.]), np.array([3., 1.5]), None),
          'eq': (None, None, .5), 'eqa': (None, None, np.array([.5, -1.]))}
TOLS = {'none': None, 'one': 1., 'int': 1, 'arr': np.array([.5, 2.])}


def run_t(case, R):
    """rows of the constraints that are further than their tolerance from all of their bounds may be left out (zero); all others are
    the true derivatives"""
    from openmdao.api import Problem, Group, ExecComp, IndepVarComp
    _, b0, t0, b1, t1, mode, par = case
    vals = [-2.5, -1.4, .25, 1.75, 3.2]
    play = {}
    fake, drv = standin(play)
    drv.options['optimizer'] = 'SNOPT'
    drv.options['print_results'] = False
    prob = Problem(root=Group(), driver=drv)
    root = prob.root
    root.add('p', IndepVarComp('x', np.array([1., 1.])))
    root.add('c', ExecComp(['a = 2.*x + 0.*x', 'b = x*x*x', 'f = sum(x*x)'], a=np.zeros(2), b=np.zeros(2), x=np.zeros(2)))
    root.connect('p.x', 'c.x')
    drv.add_desvar('p.x', lower=-9., upper=9.)
    drv.add_objective('c.f')
    spec = {}
    for name, b, t in (('c.a', b0, t0), ('c.b', b1, t1)):
        lo, up, eq = BOUNDS[b]
        kw = dict((k, v) for k, v in (('lower', lo), ('upper', up), ('equals', eq)) if v is not None)
        if TOLS[t] is not None:
            kw['active_tol'] = TOLS[t]
        drv.add_constraint(name, **kw)
        spec[name] = (lo, up, eq, TOLS[t])
    if par:
        import openmdao.core.driver as od
        keep = od.MPI
        od.MPI = object()
        try:
            drv.parallel_derivs(['c.a', 'c.b'])
        finally:
            od.MPI = keep
    root.ln_solver.options['mode'] = mode
    prob.setup(check=False)

    def go(op, sens):
        for pt in product(vals, repeat=2):
            x = np.array(pt)
            x = np.array([x[0] / 2., np.cbrt(x[1])])
            dv = {'p.x': x.copy()}
            fd, fail = op.objfun(dv)
            for n, v in fd.items():
                if n in op.constraints:
                    op.constraints[n].value = np.array(v)
            sd, fail2 = sens(dv, fd)
            R.step(2)
            if not R.check(not fail and not fail2 and bool(sd), 'active:fail', [case, pt]):
                continue
            true = {'c.a': 2. * np.eye(2), 'c.b': np.diag(3. * x * x), 'c.f': 2. * x[None, :]}
            value = {'c.a': 2. * x, 'c.b': x ** 3}
            for n, E in true.items():
                got = sd[n]['p.x']
                for k in range(len(E)):
                    zero_ok = False
                    if n in spec:
                        lo, up, eq, tol = spec[n]
                        if tol is not None and eq is None:
                            far = [s * (value[n][k] - np.ones(2)[k] * (np.ones(2) * v)[k]) > (np.ones(2) * tol)[k] for v, s in ((lo, 1.), (up, -1.)) if v is not None]
                            zero_ok = all(far)
                    if zero_ok and not np.any(got[k]):
                        R.note('inactive-rows')
                        continue
                    R.check(np.abs(got[k] - E[k]).max() < 1e-9, 'active:%s' % mode, [case, pt, n, k, repr(got), repr(E), 'may be left out' if zero_ok else ''])
        return {'p.x': np.ones(2)}
    play['go'] = go
    sys.modules['pyoptsparse'] = fake
    try:
        prob.run()
    finally:
        sys.modules.pop('pyoptsparse', None)
    R.state(case)
    R.trace()
