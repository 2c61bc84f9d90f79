"""C14: approximated derivatives are the requested difference formula applied to the true function."""
from itertools import product
import warnings
import numpy as np

PID = 'C14'
LEVEL = 'model_checking'
RULE = ('bounded exhaustive enumeration: every (what is approximated: component, implicit component, group, group in an approximated group, '
        'parallel-FD group, group with its own independent variable, whole problem, and complex step of each) x (form x step calculation x '
        'step size) x per-variable override x values x linear solver above x mode (quick: linear solvers rotate for some) is run on the real '
        'code and compared with the formula evaluated by an independent reference, tight enough to tell formulas and steps apart; all points '
        'at which components are called while a gradient is calculated are compared with the set of requested perturbations')
ASSUMPTIONS = ['a relative step is the step size times the magnitude of the value, and at least the step size',
               'steps of an input with units may be taken in the units of its source or in its own',
               'a variable read by several components of an approximated group may be perturbed for all at once or one after the other']
NOTE = 'all combinations in the bounds are run'

FORMS = ['forward', 'backward', 'central']
CALCS = ['absolute', 'relative']
STEPS = [1e-1, 1e-4]
VALUES = {'pos': [2., .5], 'neg': [-3., 0.], 'mix': [[1.5, -2.], [.25, 4.]]}
OVER = ['none', 'step', 'form', 'calc', 'all']
LN = ['gs', 'gmres', 'direct', 'assemble']
SCOPES = ['comp', 'impl', 'group', 'gimpl', 'shared', 'nested', 'pfd', 'ownind', 'root', 'rootopt']
CS = ['comp', 'impl', 'rootopt']       # complex step of groups is refused
EXTRA = ['units', 'srcidx', 'twice']


def cases(tier):
    q = tier == 'quick'
    out = []
    n = 0
    for scope, form, calc, step, val, over in product(SCOPES, FORMS, CALCS, STEPS, sorted(VALUES), OVER):
        if scope in ('root', 'rootopt'):
            out.append([scope, 'fd', form, calc, step, val, over, 'gs', 'fd', ''])
            continue
        combos = list(product(LN, ('fwd', 'rev')))
        if q:
            combos = [combos[(n + k) % 8] for k in (0, 3, 5)]
            n += 1
        for ln, mode in combos:
            out.append([scope, 'fd', form, calc, step, val, over, ln, mode, ''])
    for scope, val, ln, mode in product(CS, sorted(VALUES), LN, ('fwd', 'rev')):
        if scope == 'rootopt' and (ln != 'gs' or mode != 'fwd'):
            continue
        for over in ('none', 'step'):
            out.append([scope, 'cs', 'forward', 'absolute', None, val, over, ln, mode, ''])
    for scope, kind, extra, form, calc, val in product(SCOPES, ('fd', 'cs'), EXTRA, FORMS, CALCS, sorted(VALUES)):
        if kind == 'cs' and (scope not in CS or form != 'forward' or calc != 'absolute') or extra == 'twice' and scope in ('ownind',):
            continue
        for ln, mode in (('gs', 'fwd'), ('gs', 'rev')) if scope not in ('root', 'rootopt') else (('gs', 'fwd'),):
            out.append([scope, kind, form, calc, 1e-4 if kind == 'fd' else None, val, 'none', ln, mode, extra])
    for where, gain, nl, tol, n, start in product(('root', 'group', 'both'), (.05, .15, .25), ('gs', 'aitken', 'brent'), ('default', 'tight', 'one'),
                                                  (1, 2), ('cold', 'warm')):
        if nl == 'brent' and (n > 1 or tol == 'one' or where == 'both'):
            continue
        if nl == 'aitken' and tol == 'one':
            continue
        out.append(['cycle', where, gain, nl, tol, n, start])
    return out


def run(case, R):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cycle(case, R) if case[0] == 'cycle' else go(case, R)
    R.trace()


def cycle(case, R):
    """Complex step of a whole model with an iterated cycle: the step has to converge through the iteration as well."""
    from openmdao.api import Problem, Group, IndepVarComp, Component, NLGaussSeidel, Brent, ScipyGMRES
    _, where, gain, nl, tol, n, start = case
    R.state(case)

    class A(Component):
        def __init__(self):
            super(A, self).__init__()
            self.add_param('x', np.ones(n))
            self.add_param('z', np.zeros(n))
            self.add_output('y', np.zeros(n))

        def solve_nonlinear(self, p, u, r):
            u['y'] = .5 * p['x'] + gain * p['z'] ** 2

    class B(Component):
        def __init__(self):
            super(B, self).__init__()
            self.add_param('y', np.zeros(n))
            self.add_output('z', np.zeros(n))

        def solve_nonlinear(self, p, u, r):
            u['z'] = p['y'] + .25 * p['y'][::-1] if n > 1 else 1.25 * p['y']

    class S(Component):
        """y = .5 x + gain z^2 with z = 1.25 y as a residual."""
        def __init__(self):
            super(S, self).__init__()
            self.add_param('x', np.ones(n))
            self.add_state('y', np.zeros(n))
            self.add_output('z', np.zeros(n))

        def solve_nonlinear(self, p, u, r):
            u['z'] = 1.25 * u['y']

        def apply_nonlinear(self, p, u, r):
            r['y'] = .5 * p['x'] + gain * (1.25 * u['y']) ** 2 - u['y']
            r['z'] = 1.25 * u['y'] - u['z']

    def build(kind):
        prob = Problem(root=Group())
        root = prob.root
        root.deriv_options['type'] = kind
        root.add('p', IndepVarComp('x', np.array([1., .75][:n])))
        g = root.add('g', Group()) if where != 'root' else root
        pre = 'g.' if where != 'root' else ''
        if nl == 'brent':
            g.add('a', S())
            g.nl_solver = Brent()
            g.nl_solver.options['state_var'] = 'a.y'
            g.nl_solver.options['lower_bound'], g.nl_solver.options['upper_bound'] = -.1, .78
            names = [pre + 'a.y', pre + 'a.z']
        else:
            g.add('a', A())
            g.add('b', B())
            g.connect('a.y', 'b.y')
            g.connect('b.z', 'a.z')
            names = [pre + 'a.y', pre + 'b.z']
        root.connect('p.x', pre + 'a.x')
        solvers = [s for s in ([g] if where != 'both' else [g, root])]
        for s in solvers:
            if nl != 'brent':
                s.nl_solver = NLGaussSeidel()
                s.nl_solver.options['use_aitken'] = nl == 'aitken'
            s.ln_solver = ScipyGMRES()
            s.nl_solver.options['iprint'] = -1
            if tol == 'tight':
                s.nl_solver.options['maxiter'] = 200
                for o in ('atol', 'rtol', 'utol') if nl != 'brent' else ('xtol', 'rtol'):
                    s.nl_solver.options[o] = 1e-15
            if tol == 'one':
                s.nl_solver.options['maxiter'] = 1
        prob.setup(check=False)
        return prob, names

    prob, names = build('cs')
    x = np.array([1., .75][:n])
    M = np.array([[1., .25], [.25, 1.]]) if n > 1 else np.array([[1.25]])

    def sweep(z, dz):
        y, dy = .5 * x + gain * z ** 2, .5 * np.eye(n) + np.diag(2 * gain * z).dot(dz)
        return M.dot(y), M.dot(dy), y, dy

    for _ in range(1 if start == 'cold' else 3):
        prob.run()
    if tol == 'one':             # the sweeps that are made, and no more
        before = prob[names[1]] * 1.
        R.step()
        z, dz = np.atleast_1d(before), np.zeros((n, n))
        z, dz, y, dy = sweep(z, dz)
        if where == 'both':
            dy = None
    else:
        z, dz = np.zeros(n), np.zeros((n, n))
        for _ in range(400):
            z, dz, y, dy = sweep(z, dz)
    if dy is None:
        return
    J = prob.calc_gradient(['p.x'], names, return_format='dict')
    R.step()
    eps = {'default': 1e-4, 'tight': 1e-11, 'one': 1e-11}[tol]
    for name, want in zip(names, (dy, dz)):
        got = J[name]['p.x']
        R.check(np.allclose(got, want, rtol=eps, atol=eps), 'cycle:%s' % nl, lambda: '%s %s for %s' % (name, got, want))


# ------------------------------------------------------------------ the functions, and their derivatives where they are supplied
def f_pre(x):
    return 1.5 * x + .2 * x * x


def d_pre(x):
    return np.diag(1.5 + .4 * np.ravel(x))


def f_q1(u, s):
    return np.exp(.3 * u) * s + np.roll(np.ravel(u), 1).reshape(np.shape(u)) ** 3


def f_q2(t, u, s):
    return np.ravel(t)[:2] * s + np.ravel(u)[-2:] ** 2, np.sum(np.sin(u)) * s ** 2 + np.ravel(t)[0]


def f_q(u, s):
    return f_q2(f_q1(u, s), u, s)


def resid(y, u, s):
    """of y + .3*sin(y) = u*s + y_prev... made of entries that do not interact"""
    return y + .3 * np.sin(y) - np.ravel(u)[:2] * s


def solve_y(u, s):
    y = np.zeros(2)
    for _ in range(60):
        y = y - resid(y, u, s) / (1. + .3 * np.cos(y))
    return y


def implicit(u, s):
    y = solve_y(u, s)
    return np.concatenate([y, [np.sum(u ** 2) * s + y[1] ** 2]])


def f_post(v, w):
    return np.array([np.sum(v) * w, v[0] * v[1]]), v[0] + w * w


def d_post(v, w):
    return np.array([[w, w], [v[1], v[0]]]), np.array([[v[0] + v[1]], [0.]]), np.array([[1., 0.]]), np.array([[2. * w]])


def classes(log):
    from openmdao.api import Component

    def note(c, *args):
        log.append((c.pathname,) + tuple(np.array(a) for a in args))

    class Pre(Component):
        def __init__(self, x, meta=None):
            super(Pre, self).__init__()
            self.add_param('x', x, **(meta or {}))
            self.add_output('u', x * 0.)

        def solve_nonlinear(self, p, u, r):
            note(self, p['x'])
            u['u'] = f_pre(p['x'])

        def linearize(self, p, u, r):
            return {('u', 'x'): d_pre(p['x'])}

    class Q1(Component):
        def __init__(self, x, meta=None, units=None):
            super(Q1, self).__init__()
            m = dict(meta or {})
            if units:
                m['units'] = units
            self.add_param('u', x * 0., **m)
            self.add_param('s', 0.)
            self.add_output('t', x * 0.)

        def solve_nonlinear(self, p, u, r):
            note(self, p['u'], p['s'])
            u['t'] = f_q1(p['u'], p['s'])

    class Q2(Component):
        def __init__(self, x, meta=None, units=None):
            super(Q2, self).__init__()
            m = dict(meta or {})
            if units:
                m['units'] = units
            self.add_param('t', x * 0.)
            self.add_param('u', x * 0., **m)
            self.add_param('s', 0.)
            self.add_output('v', np.zeros(2))
            self.add_output('w', 0.)

        def solve_nonlinear(self, p, u, r):
            note(self, p['t'], p['u'], p['s'])
            u['v'], u['w'] = f_q2(p['t'], p['u'], p['s'])

    class Q(Component):
        def __init__(self, x, meta=None, units=None):
            super(Q, self).__init__()
            m = dict(meta or {})
            if units:
                m['units'] = units
            self.add_param('u', x * 0., **m)
            self.add_param('s', 0.)
            self.add_output('v', np.zeros(2))
            self.add_output('w', 0.)

        def solve_nonlinear(self, p, u, r):
            note(self, p['u'], p['s'])
            u['v'], u['w'] = f_q(p['u'], p['s'])

    class QI(Component):
        def __init__(self, x, meta=None, units=None):
            super(QI, self).__init__()
            m = dict(meta or {})
            if units:
                m['units'] = units
            self.add_param('u', x * 0., **m)
            self.add_param('s', 0.)
            self.add_state('v', np.zeros(2))
            self.add_output('w', 0.)

        def solve_nonlinear(self, p, u, r):
            if '.' in self.pathname:
                note(self, p['u'], p['s'])
            u['v'] = solve_y(p['u'], p['s'])
            u['w'] = np.sum(p['u'] ** 2) * p['s'] + u['v'][1] ** 2

        def apply_nonlinear(self, p, u, r):
            note(self, p['u'], p['s'], u['v'])
            r['v'] = resid(u['v'], p['u'], p['s'])
            r['w'] = np.sum(p['u'] ** 2) * p['s'] + u['v'][1] ** 2 - u['w']

    class Post(Component):
        def __init__(self):
            super(Post, self).__init__()
            self.add_param('v', np.zeros(2))
            self.add_param('w', 0.)
            self.add_output('f', np.zeros(2))
            self.add_output('h', 0.)

        def solve_nonlinear(self, p, u, r):
            note(self, p['v'], p['w'])
            u['f'], u['h'] = f_post(p['v'], p['w'])

        def linearize(self, p, u, r):
            a, b, c, d = d_post(p['v'], p['w'])
            return {('f', 'v'): a, ('f', 'w'): b, ('h', 'v'): c, ('h', 'w'): d}
    return Pre, Q1, Q2, Q, QI, Post


def override(over, form, calc, step):
    m = {}
    if over in ('step', 'all'):
        m['step_size'] = (step or 1e-30) * 3.
    if over in ('form', 'all'):
        m['form'] = FORMS[(FORMS.index(form) + 1) % 3]
    if over in ('calc', 'all'):
        m['step_calc'] = CALCS[1 - CALCS.index(calc)]
    return m


def pathless(log, name):
    return [l for l in log if l[0].split('.')[-1] == name]


def go(case, R):
    from openmdao.api import (Problem, Group, IndepVarComp, LinearGaussSeidel, ScipyGMRES, DirectSolver, ParallelFDGroup)
    scope, kind, form, calc, step, val, over, ln, mode, extra = case
    if scope in ('impl', 'gimpl') and ln == 'gs':
        ln = 'gmres'        # refused at setup, as it should be
    log = []
    Pre, Q1, Q2, Q, QI, Post = classes(log)
    x0, s0 = np.array(VALUES[val]), 1.25
    meta = override(over, form, calc, step)
    atroot = scope in ('root', 'rootopt')
    units = ('m', 'cm') if extra == 'units' else (None, None)

    prob = Problem(root=Group())
    root = prob.root
    root.ln_solver = {'gs': LinearGaussSeidel, 'gmres': ScipyGMRES}.get(ln, DirectSolver)()
    if ln == 'assemble':
        root.ln_solver.options['jacobian_method'] = 'assemble'
    root.add('ind', IndepVarComp('x', x0))
    if scope != 'ownind':
        root.add('inds', IndepVarComp('s', s0))
    root.add('pre', Pre(x0, meta if atroot else None))
    root.connect('ind.x', 'pre.x')
    if units[0]:
        root.pre._init_unknowns_dict['u']['units'] = units[0]
    qmeta = None if atroot else meta
    # the system that is approximated, the names of its inputs and outputs
    if scope in ('comp', 'impl'):
        q = root.add('q', (Q if scope == 'comp' else QI)(x0, qmeta, units[1]))
        ins, s_in, v, w, top = ['q.u'], ['q.s'], 'q.v', 'q.w', q
        sysname = 'q'
    elif scope in ('group', 'gimpl', 'shared', 'nested', 'pfd', 'ownind', 'root', 'rootopt'):
        q = ParallelFDGroup(1) if scope == 'pfd' else Group()
        root.add('g', q)
        g, pre = q, 'g.'
        if scope == 'nested':
            g, pre = q.add('gg', Group()), 'g.gg.'
            g.deriv_options['type'] = kind
            if kind == 'fd':
                g.deriv_options['step_size'] = .3       # of no importance: the outer one is approximated
        promo = ['u', 's'] if scope == 'shared' else []
        if scope == 'ownind':
            g.add('inds', IndepVarComp('s', s0))
        if scope in ('group', 'gimpl'):
            # one component behind each input
            if scope == 'gimpl':
                g.ln_solver = ScipyGMRES()
            g.add('q', (Q if scope == 'group' else QI)(x0, qmeta, units[1]))
            g.add('last', Copy())
            g.connect('q.v', 'last.i')
            ins, s_in, v, w = [pre + 'q.u'], [pre + 'q.s'], pre + 'last.o', pre + 'q.w'
        else:
            g.add('q1', Q1(x0, qmeta, units[1]), promotes=promo)
            g.add('q2', Q2(x0, qmeta, units[1]), promotes=promo)
            g.connect('q1.t', 'q2.t')
            v, w = pre + 'q2.v', pre + 'q2.w'
            if scope == 'shared':
                ins, s_in = ['g.u'], ['g.s']
            else:
                ins, s_in = [pre + 'q1.u', pre + 'q2.u'], [pre + 'q1.s', pre + 'q2.s']
        top = root if scope == 'rootopt' else q
    idx = None
    if extra == 'srcidx':
        # the input reads its source backwards
        idx = list(range(x0.size))[::-1]
    for i in ins:
        root.connect('pre.u', i, src_indices=idx) if idx else root.connect('pre.u', i)
    src_s = 'inds.s' if scope != 'ownind' else pre + 'inds.s'
    for i in s_in:
        if scope == 'ownind':
            g.connect('inds.s', i[len(pre):])
        else:
            root.connect(src_s, i)
    root.add('post', Post())
    root.connect(v, 'post.v')
    root.connect(w, 'post.w')
    if extra == 'twice':
        # somebody else reads what the approximated system reads
        root.add('other', Copy(x0 if not units[0] else x0))
        root.connect('pre.u', 'other.i')
    if scope != 'root':
        top.deriv_options['type'] = kind
    if kind == 'fd':
        top = root if atroot else top
        top.deriv_options['form'] = form
        top.deriv_options['step_calc'] = calc
        top.deriv_options['step_size'] = step
    prob.setup(check=False)
    prob.run()
    before = {n: np.array(root.unknowns[n]) for n in root.unknowns}
    del log[:]
    wrt, of = ['ind.x', src_s], ['post.f', 'post.h', v, w]
    if extra == 'twice':
        of = of + ['other.o']
    J = prob.calc_gradient(wrt, of, mode='fd' if scope == 'root' else mode if not atroot else 'auto', return_format='dict')
    R.state((scope, kind, form, calc, step, val, over, ln, mode, extra))
    d = [n for n in before if not np.array_equal(before[n], root.unknowns[n])]
    R.check(not d, 'values-changed', lambda: '%s' % d)

    # ---------------------------------------------------------------- reference
    conv = 100. if units[0] else 1.
    perm = idx

    def feed(u):
        u = u * conv
        return u if perm is None else np.ravel(u)[perm].reshape(np.shape(u))
    u0 = f_pre(x0)
    opts = dict(form=form, calc=calc, step=step)
    over_opts = dict(opts)
    over_opts.update({'step_size': ('step', meta.get('step_size'))}.get('x', {}))
    for k, n in (('step_size', 'step'), ('form', 'form'), ('step_calc', 'calc')):
        if k in meta:
            over_opts[n] = meta[k]
    impl = scope == 'impl'
    two = scope in ('shared', 'nested', 'pfd', 'ownind', 'root', 'rootopt')

    def qfun(u1, u2, s1, s2):
        """u1, s1: as read by the first component; in the units and shape of the approximated system"""
        return np.concatenate([np.ravel(a) for a in f_q2(f_q1(u1, s1), u2, s2)])
    U = feed(u0)
    Y = solve_y(U, s0) if impl else None
    if impl:
        v0, w0 = Y, np.sum(U ** 2) * s0 + Y[1] ** 2
    elif scope == 'gimpl':
        out = implicit(U, s0)
        v0, w0 = out[:2], out[2]
    else:
        v0, w0 = f_q(U, s0)
    n = x0.size
    Pu = d_pre(x0)                                                    # du/dx
    F = conv * (np.eye(n) if perm is None else np.eye(n)[perm])       # dU/du
    a, b, c, d = d_post(v0, w0)
    B = np.block([[a, b], [c, d]])
    alts = []
    if atroot:
        def whole(x, s):
            vv, ww = f_q(feed(f_pre(x)), s)
            ff, hh = f_post(vv, ww)
            return np.concatenate([ff, [hh], vv, [ww]])
        if kind == 'cs':
            Jx, Js = cstep(lambda x: whole(x, s0), x0), cstep(lambda s: whole(x0, s), s0)
        else:
            Jx, Js = quot(lambda x: whole(x, s0), x0, **over_opts), quot(lambda s: whole(x0, s), s0, **opts)
        alts.append((Jx, Js))
    else:
        for own in ((True, False) if units[0] else (True,)):
            # in the units of the input / of its source
            k = 1. if own else conv

            def dif(f, z, o):
                return cstep(f, z) if kind == 'cs' else quot(f, z, **o)
            for joint in ((True, False) if two else (True,)):
                if impl:
                    def r1(z):
                        return np.concatenate([resid(Y, z * k, s0), [np.sum((z * k) ** 2) * s0]])

                    def r2(s):
                        return np.concatenate([resid(Y, U, s), [np.sum(U ** 2) * s]])

                    def r3(y):
                        return np.concatenate([resid(y, U, s0), [y[1] ** 2]])
                    Ru, Rs, Ry = dif(r1, U / k, over_opts) / k, dif(r2, s0, opts), dif(r3, Y, opts)
                    Yu, Ys = -np.linalg.solve(Ry[:2], Ru[:2]), -np.linalg.solve(Ry[:2], Rs[:2])
                    D = np.concatenate([Yu, Ru[2:] + Ry[2:].dot(Yu)])
                    E = np.concatenate([Ys, Rs[2:] + Ry[2:].dot(Ys)])
                elif scope == 'gimpl':
                    D = dif(lambda z: implicit(z * k, s0), U / k, over_opts) / k
                    E = dif(lambda s: implicit(U, s), s0, opts)
                elif joint:
                    D = dif(lambda z: qfun(z * k, z * k, s0, s0), U / k, over_opts) / k
                    E = dif(lambda s: qfun(U, U, s, s), s0, opts)
                else:
                    D = (dif(lambda z: qfun(z * k, U, s0, s0), U / k, over_opts) + dif(lambda z: qfun(U, z * k, s0, s0), U / k, over_opts)) / k
                    E = dif(lambda s: qfun(U, U, s, s0), s0, opts) + dif(lambda s: qfun(U, U, s0, s), s0, opts)
                Dx = D.dot(F).dot(Pu)
                alts.append((np.concatenate([B.dot(Dx), Dx]), np.concatenate([B.dot(E), E])))
    gx = np.concatenate([np.atleast_2d(J[o]['ind.x']) for o in of[:4]])
    gs = np.concatenate([np.atleast_2d(J[o][src_s]) for o in of[:4]])
    tol = 1e-9 if kind == 'cs' else max(1e-9, 1e-10 / (step or 1.))
    if impl:
        tol = max(tol, 1e-8)
    if ln == 'gmres':
        tol = max(tol, 1e-7)
    if units[0]:
        tol *= 100.
    okx = [same(gx, ax, tol) for ax, as_ in alts]
    oks = [same(gs, as_, tol) for ax, as_ in alts]
    R.check(any(okx), 'formula:wrt-array:%s' % scope, lambda: '%s instead of %s' % (gx, alts[0][0]))
    R.check(any(oks), 'formula:wrt-scalar:%s' % scope, lambda: '%s instead of %s' % (gs, alts[0][1]))
    if extra == 'twice' and not atroot:
        got = np.array(J['other.o']['ind.x'])
        R.check(same(got, 2. * Pu, 1e-9) and not np.any(J['other.o'][src_s]), 'rest-of-model', lambda: '%s' % got)
    R.step(2)

    # ---------------------------------------------------------------- where was user code called?
    if kind == 'cs':
        bases = {'pre': (x0,), 'q': (U, s0), 'q1': (U, s0)}
        for l in log:
            nm = l[0].split('.')[-1]
            if nm in bases:
                for got, want in zip(l[1:], bases[nm]):
                    R.check(np.allclose(np.real(got), want, rtol=1e-13, atol=1e-15), 'cs-moved-real-part', lambda: '%s %s' % (l, want))
        return
    if not atroot:
        R.check(not [l for l in log if l[0] in ('pre', 'post') and not near(l[1:], (x0,) if l[0] == 'pre' else (v0, w0))], 'others-moved', lambda: str(log))
        name = {'comp': 'q', 'impl': 'q', 'group': 'q', 'gimpl': 'q'}.get(scope, 'q1')
        seen = [l[1:3] for l in pathless(log, name)]
        sets = []
        for own in ((True, False) if units[0] else (True,)):
            k = 1. if own else conv
            pts = [(U2 * k, s0) for U2 in points(U / k, **over_opts)] + [(U, s2) for s2 in points(s0, **opts)]
            sets.append(pts)
    else:
        seen = [l[1:] + (None,) for l in pathless(log, 'pre')]
        sets = [[(x2, None) for x2 in points(x0, **over_opts)]]
        name = 'pre'
        base = (x0, None)
    base = (x0, None) if atroot else (U, s0)
    good = False
    for pts in sets:
        extra_pts = [z for z in seen if not near(z, base) and not any(near(z, y) for y in pts)]
        missing = [y for y in pts if not any(near(z, y) for z in seen)]
        good = good or not extra_pts and not missing
    R.check(good, 'points:%s' % scope, lambda: 'not asked for: %s; missing: %s' % (extra_pts, missing))


def Copy(x=None):
    from openmdao.api import Component

    class C(Component):
        def __init__(self):
            super(C, self).__init__()
            z = np.zeros(2) if x is None else x * 0.
            self.k = 1. if x is None else 2.
            self.add_param('i', z)
            self.add_output('o', z)

        def solve_nonlinear(self, p, u, r):
            u['o'] = self.k * p['i']

        def linearize(self, p, u, r):
            return {('o', 'i'): self.k * np.eye(np.size(p['i']))}
    return C()


def near(a, b):
    return all(x is None and y is None or np.allclose(x, y, rtol=1e-11, atol=1e-11) for x, y in zip(a, b))


def same(a, b, tol):
    return a.shape == b.shape and np.max(np.abs(a - b)) <= tol * (1. + np.max(np.abs(b)))


def size(x, calc, step):
    return step if calc == 'absolute' else max(step, abs(x) * step)


def perturbed(z, i, h):
    if np.ndim(z) == 0:
        return z + h
    y = np.array(z)
    y.flat[i] += h
    return y


def quot(f, z, form, calc, step):
    cols = []
    for i in range(np.size(z)):
        h = size(np.ravel(z)[i], calc, step)
        hi = f(perturbed(z, i, h)) if form != 'backward' else f(z)
        lo = f(perturbed(z, i, -h)) if form != 'forward' else f(z)
        cols.append((hi - lo) / (h * (2 if form == 'central' else 1)))
    return np.array(cols).T


def points(z, form, calc, step):
    out = []
    for i in range(np.size(z)):
        h = size(np.ravel(z)[i], calc, step)
        if form != 'backward':
            out.append(perturbed(z, i, h))
        if form != 'forward':
            out.append(perturbed(z, i, -h))
    return out


def cstep(f, z):
    cols = []
    for i in range(np.size(z)):
        y = np.array(z, complex)
        y.flat[i] += 1e-40j
        cols.append(np.imag(f(y if np.ndim(z) else complex(y))) / 1e-40)
    return np.array(cols).T
