"""C06: drivers see design variables and responses consistently scaled and indexed."""
from itertools import product, permutations
import warnings
import numpy as np
from mc.models import flat, relerr

PID = 'C06'
LEVEL = 'model_checking'
RULE = ('complete products: (V) shape x index list x container type x scaler x adder x bounds for a design '
        'variable, each followed by every single-variable set/get/run sequence; (Q) the same for objectives and '
        'constraints with every combination of bound kinds; (I) setting single entries by index; (J) all pairs of '
        'scaled/indexed design variables x scaled/indexed responses x modes (fwd, rev, fd, cs) x return formats x '
        'request orders; (H) all histories to depth 4 of set/get/run/gradient on two design variables.')
ASSUMPTIONS = ['array scalers, adders and bounds have one entry per selected entry of the variable']
NOTE = 'all configurations and histories in the bounds are executed on Driver and compared with a numpy reference'
BIG = 1e300

SHAPES = {'s': [], '1': [1], '3': [3], 'm': [2, 2]}


def sz(sh):
    n = 1
    for k in SHAPES[sh]:
        n *= k
    return n


def idxs(sh, repeat=False):
    n = sz(sh)
    out = [None]
    for k in range(1, min(n, 3) + 1):
        for p in (product(range(n), repeat=k) if repeat and k < 3 else permutations(range(n), k)):
            out.append(list(p))
    return out


ARR = 'aow'
CONT = {'l': list, 't': tuple, 'a': lambda x: np.array(x, dtype=int), 'i': iter}
SC = ['1', '2', 'i', 'h', 'n', 'a', 'o', 'w']
AD = ['0', '1', 'a']
BD = ['n', 'f', 'l', 'u', 'a', 'A']


def scal(k, n, two=None):
    a = np.array([2., .5, 3., .25])[:n]
    v = {'1': 1.0, '2': 2.0, 'i': 4, 'h': .5, 'n': -2.0, 'a': a, 'o': np.ones(n), 'w': np.array([2., -.5, 1., -4.])[:n]}[k]
    return v


def addr(k, n):
    return {'0': 0.0, '1': 1.5, 'a': np.array([1., -2., .5, 3.])[:n], 'i': 2}[k]


def bnds(k, n):
    lo, up = np.array([-1., -2., -3., -4.])[:n], np.array([10., 20., 30., 40.])[:n]
    return {'n': (None, None), 'f': (-5., 50.), 'l': (-5., None), 'u': (None, 50.), 'a': (lo, up), 'A': (lo, None),
            'c': (-5, up)}[k]


def sint(lo, up, ad, sc, n):
    """scaled interval, entry by entry; None is unbounded"""
    lo = np.full(n, -np.inf) if lo is None else np.ones(n) * lo
    up = np.full(n, np.inf) if up is None else np.ones(n) * up
    a, b = (lo + ad) * sc, (up + ad) * sc
    return np.minimum(a, b), np.maximum(a, b)


def bnd(v, n, default):
    v = default if v is None else v
    v = np.ones(n) * v
    return np.where(v > BIG, np.inf, np.where(v < -BIG, -np.inf, v))


def negs(n):
    """index lists with entries counted from the end"""
    out = [[-1]]
    if n > 1:
        out += [[-n], [0, -1], [-1, 0], [-2], [-1, -n]]
    if n > 3:
        out += [[-3, 2, -1]]
    return out


def cases(tier):
    out = []
    q = tier == 'quick'
    for sh in SHAPES:
        for ix in negs(sz(sh)):
            for ct in 'la':
                for sc, ad in product('1na', AD):
                    for bd in 'fa':
                        out.append(['V', sh, ix, ct, sc, ad, bd])
                    for kind in ('obj', 'eqa', 'inA'):
                        out.append(['Q', sh, ix, ct, sc, ad, kind])
    for d in NEG:
        for r in NEG:
            for mode in ('fwd', 'rev', 'fd', 'cs'):
                for ln in ('gs', 'direct'):
                    if ln == 'direct' and mode in ('fd', 'cs'):
                        continue
                    out.append(['J', list(d), list(r), mode, ln])
                if d[0] == r[0] and 'a' not in (d[2], r[2]):
                    out.append(['P', list(d), list(r), mode])
    for kinds in product(LIST, repeat=3):
        out.append(['L', list(kinds)])
    for sh in OBJ:
        n = int(np.prod(OBJ[sh]))
        for ix in [None] + [list(t) for k in (1, 2) for t in permutations(range(n), k)] + negs(n):
            for sc, ad in product('12na', AD):
                if ix is not None or len(OBJ[sh]) == 1 or 'a' not in (sc, ad):      # those arrays are kept flat
                    out.append(['O', sh, ix, sc, ad])
    for sh in SHAPES:
        for ix in idxs(sh):
            for ct in ('l',) if ix is None else ('l', 't', 'a'):
                for sc, ad, bd in product(SC, AD, BD):
                    if q and ct != 'l' and (sc in 'ow1' or ad == '1'):
                        continue
                    if q and sh == 'm' and ix is not None and len(ix) == 3 and (sc in '2ioh' or bd in 'lu'):
                        continue
                    out.append(['V', sh, ix, ct, sc, ad, bd])
    for sh in SHAPES:
        for ix in idxs(sh, True):
            for ct in ('l',) if ix is None else ('l', 't', 'a'):
                for sc, ad in product(SC, AD):
                    if q and ct != 'l' and (sc in 'ow1' or ad == '1'):
                        continue
                    for kind in ('obj', 'eq', 'eqa') + tuple('in' + b for b in BD if b != 'n'):
                        if q and ix is not None and len(ix) > 1 and sc in 'ioh' and kind != 'obj':
                            continue
                        out.append(['Q', sh, ix, ct, sc, ad, kind])
    for sh in SHAPES:
        for sc, ad in product(SC, AD):
            for i in range(sz(sh)):
                out.append(['I', sh, i, sc, ad])
    DV = [(sh, ix, sc) for sh in ('s', '3', 'm') for ix in ([None, [0]] if sh == 's' else [None, [1], [2, 0]])
          for sc in ('1', '2', 'n', 'a')]
    for d in DV:
        for r in DV:
            for mode in ('fwd', 'rev', 'fd', 'cs'):
                for ln in ('gs', 'direct'):
                    if ln == 'direct' and (mode in ('fd', 'cs') or q and d[2] != 'a'):
                        continue
                    out.append(['J', list(d), list(r), mode, ln])
    PD = [(sh, ix, sc) for sh in ('s', '3', 'm') for ix in ([None, [0]] if sh == 's' else [None, [1], [2, 0]]) for sc in '2na']
    for d in PD:
        for r in PD:
            if r[0] == d[0]:
                for mode in ('fwd', 'rev', 'fd', 'cs'):
                    if (mode == 'fwd' and d[2] in ARR) or (mode == 'rev' and r[2] in ARR):
                        continue        # the recorded defect; family J shows it
                    out.append(['P', list(d), list(r), mode])
    for d in PD:
        for ix in (None, [1], [2, 0]):
            for mode in ('fwd', 'rev'):
                if mode == 'fwd' and d[2] in ARR:
                    continue
                for ex in range(6):
                    out.append(['X', list(d), ['3', ix, 'a' if mode == 'fwd' else 'n'], mode, ex])
    ops = ['sa', 'sA', 'sb', 'sp', 'run', 'get', 'grad', 'mod']
    for k in ((3,) if q else (3, 4)):
        for seq in product(ops, repeat=k):
            for cfg in range(4):
                out.append(['H', list(seq), cfg])
    return out


NEG = [(sh, ix, sc) for sh, ixs in (('s', [None, [0], [-1]]), ('3', [[-1], [1, -3], [-1, 0]]), ('m', [None, [-1, 1], [-4], [2, -1, 0]]))
       for ix in ixs for sc in '2na']
LIST = [a + b for a in ('e', 'E', 'l', 'u', 'b') for b in 'LN']
OBJ = {'3': (3,), '22': (2, 2), '13': (1, 3)}


def run(case, R):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(over='ignore'):
            globals()['run_' + case[0].lower()](case, R)
    R.state(case)


def val(sh, k=0):
    n = sz(sh)
    v = np.array([1.25, -2.5, 3.75, 7.5])[:n] + k
    return float(v[0]) if sh == 's' else v.reshape(SHAPES[sh])


def fun(x):
    return 2. * x * x + x


def make(sh, drv=None):
    from openmdao.api import Problem, Group, Component, IndepVarComp, Driver

    class C(Component):
        def __init__(self):
            super(C, self).__init__()
            self.add_param('x', val(sh) * 0.)
            self.add_output('y', val(sh) * 0.)

        def solve_nonlinear(self, p, u, r):
            u['y'] = fun(p['x'])

        def linearize(self, p, u, r):
            return {('y', 'x'): np.diag(4. * flat(p['x']) + 1.)}
    prob = Problem(root=Group())
    prob.root.add('p', IndepVarComp([('w', np.array([9., 8., 7.])), ('x', val(sh)), ('z', 5.)]))
    prob.root.add('c', C())
    prob.root.connect('p.x', 'c.x')
    prob.driver = Driver()
    return prob


def driver():
    """a driver that remembers its problem while it runs, as the optimizers do"""
    from openmdao.api import Driver

    class D(Driver):
        def run(self, problem):
            self._problem = problem
            self.run_once(problem)
    return D()


def same(R, key, got, want, msg=''):
    got = flat(got)
    R.check(got.shape == want.shape and np.all((got == want) | (np.abs(got - want) <= 1e-12 * np.maximum(1, np.abs(want)))),
            key, lambda: '%s got %s expected %s' % (msg, got, want))


def snapshot(prob):
    return dict((k, np.array(v['val'] if isinstance(v, dict) else prob[k], dtype=float).ravel().copy())
                for k, v in prob.root.unknowns.items())


def snap(prob):
    return dict((k, flat(prob[k]).copy()) for k in ('p.w', 'p.x', 'p.z', 'c.y', 'c.x'))


def run_v(case, R):
    _, sh, ix, ct, sc, ad, bd = case
    n = sz(sh)
    sel = list(range(n)) if ix is None else ix
    m = len(sel)
    s, a = scal(sc, m), addr(ad, m)
    lo, up = bnds(bd, m)
    prob = make(sh)
    kw = {}
    if ix is not None:
        kw['indices'] = CONT[ct](ix)
    if bd in 'fa':
        kw.update(lower=lo, upper=up)
    elif lo is not None:
        kw['lower'] = lo
    elif up is not None:
        kw['upper'] = up
    keep = [np.array(v) if isinstance(v, np.ndarray) else v for v in (s, a, lo, up)]
    prob.driver.add_desvar('p.x', scaler=s, adder=a, **kw)
    prob.setup(check=False)
    d = prob.driver
    R.step(3)
    same(R, 'get', d.get_desvars()['p.x'], (flat(val(sh))[sel] + a) * s, 'initial')
    md = d.get_desvar_metadata()['p.x']
    elo, eup = sint(lo, up, a, s, m)
    same(R, 'bounds', bnd(md['lower'], m, -np.inf), elo, 'lower')
    same(R, 'bounds', bnd(md['upper'], m, np.inf), eup, 'upper')
    R.check(md['size'] == m, 'size', str(md['size']))
    prob.run()
    new = np.array([.5, -.75, 6., 11.])[:m]
    for k, v in enumerate((new, new * -1. - 2.)):
        before = snap(prob)
        arg = v.copy() if m > 1 or k else (v.copy() if sh != 's' or ix is not None else float(v[0]))
        d.set_desvar('p.x', arg)
        R.step(2)
        if isinstance(arg, np.ndarray):
            same(R, 'argument-modified', arg, v)
        same(R, 'set-get', d.get_desvars()['p.x'], v, 'after set')
        want = before['p.x'].copy()
        want[sel] = v / s - a
        after = snap(prob)
        same(R, 'set-model', after['p.x'], want, 'model value')
        for o in ('p.w', 'p.z', 'c.y'):
            same(R, 'set-other', after[o], before[o], o)
        R.check(np.shape(prob['p.x']) == tuple(SHAPES[sh]), 'shape', str(np.shape(prob['p.x'])))
        if k == 0:
            prob.run()
            same(R, 'run', prob['c.y'], fun(want))
        else:       # read back by a second round trip
            g = d.get_desvars()
            d.set_desvar('p.x', g['p.x'])
            same(R, 'round-trip', prob['p.x'], want)
    for o, k in zip((s, a, lo, up), keep):
        if isinstance(o, np.ndarray):
            same(R, 'argument-modified', o, k)
    R.trace()


def run_q(case, R):
    _, sh, ix, ct, sc, ad, kind = case
    n = sz(sh)
    sel = list(range(n)) if ix is None else ix
    m = len(sel)
    s, a = scal(sc, m), addr(ad, m)
    prob = make(sh)
    kw = {'scaler': s, 'adder': a}
    if ix is not None:
        kw['indices'] = CONT[ct](ix)
    d = prob.driver
    d.add_desvar('p.x')
    if kind == 'obj':
        d.add_objective('c.y', **kw)
    elif kind.startswith('eq'):
        e = 4. if kind == 'eq' else np.array([4., 5., 6., 7.])[:m]
        d.add_constraint('c.y', equals=e, **kw)
    else:
        lo, up = bnds(kind[2:], m)
        if lo is not None:
            kw['lower'] = lo
        if up is not None:
            kw['upper'] = up
        d.add_constraint('c.y', **kw)
    prob.setup(check=False)
    for k in (0, 1):
        prob['p.x'] = val(sh, k)
        prob.run()
        want = (fun(flat(val(sh, k)))[sel] + a) * s
        R.step()
        if kind == 'obj':
            same(R, 'objective', d.get_objectives()['c.y'], want)
            same(R, 'objective-array', d.get_objectives(return_type='array'), want)
            R.check(not d.get_constraints(), 'listing', '')
        else:
            same(R, 'constraint', d.get_constraints()['c.y'], want)
            eq = kind.startswith('eq')
            for ctype in ('all', 'eq', 'ineq'):
                for lt in ('all', 'linear', 'nonlinear'):
                    got = list(d.get_constraints(ctype, lt))
                    exp = ['c.y'] if ctype in ('all', 'eq' if eq else 'ineq') and lt != 'linear' else []
                    R.check(got == exp, 'listing', '%s %s %s' % (ctype, lt, got))
    if kind != 'obj':
        md = d.get_constraint_metadata()['c.y']
        R.check(md['size'] == m, 'size', str(md['size']))
        if kind.startswith('eq'):
            same(R, 'equals', np.ones(m) * md['equals'], np.ones(m) * (e + a) * s)
        else:
            elo, eup = sint(lo, up, a, s, m)
            same(R, 'con-bounds', bnd(md['lower'], m, -np.inf), elo, 'lower')
            same(R, 'con-bounds', bnd(md['upper'], m, np.inf), eup, 'upper')
    R.trace()


def run_l(case, R):
    """the listing of several constraints by kind"""
    from openmdao.api import Problem, Group, IndepVarComp, ExecComp, Driver
    _, kinds = case
    prob = Problem(root=Group(), driver=Driver())
    prob.root.add('p', IndepVarComp('x', np.array([1., 2.])))
    d = prob.driver
    d.add_desvar('p.x')
    names = []
    for k, kd in enumerate(kinds):
        c = 'c%d' % (2 - k)
        prob.root.add(c, ExecComp('y=%d.*x' % (k + 2), x=np.zeros(2), y=np.zeros(2)))
        prob.root.connect('p.x', c + '.x')
        kw = {'e': {'equals': 0.}, 'E': {'equals': np.zeros(2)}, 'l': {'lower': 0.}, 'u': {'upper': 0.}, 'b': {'lower': -1., 'upper': np.ones(2)}}[kd[0]]
        d.add_constraint(c + '.y', linear=kd[1] == 'L', **kw)
        names.append(c + '.y')
    prob.setup(check=False)
    prob.run()
    for ctype in ('all', 'eq', 'ineq'):
        for lt in ('all', 'linear', 'nonlinear'):
            got = d.get_constraints(ctype, lt)
            R.step()
            exp = [n for n, kd in zip(names, kinds) if ctype in ('all', 'eq' if kd[0] in 'eE' else 'ineq')
                   and lt in ('all', 'linear' if kd[1] == 'L' else 'nonlinear')]
            R.check(list(got) == exp, 'listing', lambda: '%s %s %s expected %s' % (ctype, lt, list(got), exp))
            for n in exp:
                if n in got:
                    same(R, 'constraint', got[n], (names.index(n) + 2.) * np.array([1., 2.]))
    R.trace()


def run_o(case, R):
    """arrays passed by reference as design variables of a driver that needs no derivatives"""
    from openmdao.api import Problem, Group, IndepVarComp, Component
    _, sh, ix, sc, ad = case
    shape = OBJ[sh]
    n = int(np.prod(shape))
    v0 = np.arange(1., n + 1.).reshape(shape)

    class C(Component):
        def __init__(self):
            super(C, self).__init__()
            self.add_param('o', np.zeros(shape), pass_by_obj=True)
            self.add_output('y', 0.)

        def solve_nonlinear(self, p, u, r):
            u['y'] = (p['o'].ravel() * 2. ** np.arange(n)).sum()
    prob = Problem(root=Group())
    prob.root.add('p', IndepVarComp('o', v0.copy(), pass_by_obj=True))
    prob.root.add('c', C())
    prob.root.connect('p.o', 'c.o')
    d = prob.driver
    d.supports['gradients'] = False
    sel = list(range(n)) if ix is None else ix
    m = len(sel)
    s, a = np.array([2., .5, 3., .25])[:m] if sc == 'a' else scal(sc, m), addr(ad, m)
    if ix is None:      # what is set replaces the object
        s = s.reshape(shape) if sc == 'a' else s
        a = a.reshape(shape) if ad == 'a' else a
    d.add_desvar('p.o', scaler=s, adder=a, **({} if ix is None else {'indices': ix}))
    d.add_constraint('c.y', upper=1e3)
    prob.setup(check=False)
    prob.run()
    want = v0.ravel().copy()
    for k in range(3):
        same(R, 'object-get', d.get_desvars()['p.o'], ((want[sel].reshape(shape) if ix is None else want[sel]) + a).ravel() * np.ravel(s))
        same(R, 'object-model', prob['p.o'], want)
        R.check(np.shape(prob['p.o']) == shape, 'object-shape', str(np.shape(prob['p.o'])))
        same(R, 'object-used', prob['c.y'], np.array([(want * 2. ** np.arange(n)).sum()]))
        new = np.array([.5, -.75, 6., 11.])[:m] + k
        want[sel] = new / np.ravel(s) - np.ravel(a)
        d.set_desvar('p.o', new.reshape(shape) if ix is None else new)
        R.step()
        prob.run()
    R.trace()


def run_i(case, R):
    """set one entry of a design variable"""
    _, sh, i, sc, ad = case
    n = sz(sh)
    s, a = scal(sc, n), addr(ad, n)
    prob = make(sh)
    prob.driver.add_desvar('p.x', scaler=s, adder=a)
    prob.setup(check=False)
    prob.run()
    before = snap(prob)
    prob.driver.set_desvar('p.x', 3.5, index=i)
    want = before['p.x'].copy()
    want[i] = 3.5 / (np.ones(n) * s)[i] - (np.ones(n) * a)[i]
    after = snap(prob)
    same(R, 'index-set', after['p.x'], want)
    for o in ('p.w', 'p.z', 'c.y'):
        same(R, 'set-other', after[o], before[o], o)
    exp = (want + a) * s
    same(R, 'index-get', prob.driver.get_desvars()['p.x'], exp)
    R.step(2)
    R.trace()


def jprob(d, r, mode, ln):
    from openmdao.api import Problem, Group, Component, IndepVarComp, DirectSolver
    (s1, i1, c1), (s2, i2, c2) = d, r
    n1, n2 = sz(s1), sz(s2)
    A = (np.arange(n1 * n2).reshape(n2, n1) * 7 % 11 - 4.) / 4. + .1
    B = (np.arange(2 * n2).reshape(n2, 2) * 5 % 7 - 2.) / 2.

    class C(Component):
        def __init__(self):
            super(C, self).__init__()
            self.add_param('x', val(s1) * 0.)
            self.add_param('z', np.zeros(2))
            self.add_output('y', val(s2) * 0.)
            self.add_output('f', 0.)

        def solve_nonlinear(self, p, u, r):
            x = p['x'].ravel() if n1 > 1 else np.array([p['x']])
            y = A.dot(x) + B.dot(p['z'] * p['z'])
            u['y'] = y[0] if s2 == 's' else y.reshape(SHAPES[s2])
            u['f'] = (x * x).sum() + 3. * p['z'][1]

        def linearize(self, p, u, r):
            return {('y', 'x'): A, ('y', 'z'): 2 * B * p['z'], ('f', 'x'): 2 * flat(p['x'])[None, :],
                    ('f', 'z'): np.array([[0., 3.]])}
    prob = Problem(root=Group())
    prob.root.add('p', IndepVarComp([('x', val(s1)), ('z', np.array([1.5, -.5]))]))
    prob.root.add('c', C())
    prob.root.connect('p.x', 'c.x')
    prob.root.connect('p.z', 'c.z')
    if ln == 'direct':
        prob.root.ln_solver = DirectSolver()
    if mode in ('fd', 'cs'):
        prob.root.deriv_options['type'] = mode
        prob.root.deriv_options['form'] = 'central'
    prob.driver = drv = driver()
    m1 = n1 if i1 is None else len(i1)
    m2 = n2 if i2 is None else len(i2)
    drv.add_desvar('p.x', scaler=scal(c1, m1), **({} if i1 is None else {'indices': i1}))
    drv.add_desvar('p.z', scaler=.5)
    drv.add_objective('c.f', scaler=-10.)
    drv.add_constraint('c.y', lower=0., scaler=scal(c2, m2), adder=3., **({} if i2 is None else {'indices': i2}))
    prob.setup(check=False)
    return prob, A, B, m1, m2


def run_j(case, R):
    _, d, r, mode, ln = case
    (s1, i1, c1), (s2, i2, c2) = d, r
    prob, A, B, m1, m2 = jprob(d, r, mode, ln)
    drv = prob.driver
    prob.run()
    x, z = flat(val(s1)), np.array([1.5, -.5])
    J = {('c.y', 'p.x'): A, ('c.y', 'p.z'): 2 * B * z, ('c.f', 'p.x'): 2 * x[None, :], ('c.f', 'p.z'): np.array([[0., 3.]])}
    sd = {'p.x': np.ones(m1) * scal(c1, m1), 'p.z': np.array([.5, .5])}
    sr = {'c.y': np.ones(m2) * scal(c2, m2), 'c.f': np.array([-10.])}
    raw = {}
    for (o, w) in list(J):
        M = J[o, w]
        if o == 'c.y' and i2 is not None:
            M = M[i2]
        if w == 'p.x' and i1 is not None:
            M = M[:, i1]
        raw[o, w] = M
        J[o, w] = sr[o][:, None] * M / sd[w]
    tol = 1e-5 if mode == 'fd' else 1e-9
    for wrt in (['p.x', 'p.z'], ['p.z', 'p.x'], ['p.x']):
        for of in (['c.f', 'c.y'], ['c.y', 'c.f'], ['c.y']):
            for fmt in ('dict', 'array'):
                for who, E in (('driver', J), ('problem', raw)):
                    md = 'auto' if mode in ('fd', 'cs') else mode
                    e = np.vstack([np.hstack([E[o, w] for w in wrt]) for o in of])
                    bad = whole_array(raw, sd, sr, wrt, of, mode, c1, c2) if who == 'driver' else None
                    try:
                        g = (drv if who == 'driver' else prob).calc_gradient(wrt, of, mode=md, return_format=fmt)
                    except ValueError as exc:
                        R.check(isinstance(bad, str), 'grad:raised', '%s %s' % (who, exc))
                        R.fail('array-scaler-in-linear-gradient:raised', str(exc))
                        continue
                    R.step()
                    if fmt == 'dict':
                        g = np.vstack([np.hstack([np.atleast_2d(g[o][w]) for w in wrt]) for o in of])
                    if bad is not None and not isinstance(bad, str) and relerr(g, e) >= tol and relerr(g, bad) < tol:
                        R.fail('array-scaler-in-linear-gradient:whole-array', 'of %s wrt %s: %s expected %s' % (of, wrt, g.tolist(), e.tolist()))
                        continue
                    R.check(relerr(g, e) < tol, 'grad:%s:%s:%s' % (who, mode, fmt),
                            lambda: 'of %s wrt %s: %s expected %s' % (of, wrt, g.tolist(), e.tolist()))
    R.trace()


def whole_array(raw, sd, sr, wrt, of, mode, c1, c2):
    """What the recorded defect returns (known_findings.json): each column (fwd) or row (rev) of the solution is
    multiplied by the whole array scaler of the variable it belongs to, not by its entry of it. None when that is
    harmless, a string when the shapes do not allow it."""
    if mode not in ('fwd', 'rev') or (c1 if mode == 'fwd' else c2) not in ARR:
        return None
    rows = []
    for o in of:
        row = []
        for w in wrt:
            M = np.array(raw[o, w])
            a, b = (1. / sd[w], sr[o]) if mode == 'fwd' else (sr[o], 1. / sd[w])
            big = (w == 'p.x' if mode == 'fwd' else o == 'c.y')
            V = M.T if mode == 'fwd' else M
            if big and len(a) > 1:
                if V.shape[1] != len(a):
                    return 'shape'
                V = V * a * b
            else:
                V = V * a[:, None] * b
            row.append(V.T if mode == 'fwd' else V)
        rows.append(np.hstack(row))
    return np.vstack(rows)


def run_p(case, R):
    """a design variable is itself constrained, with its own indices and scaling"""
    from openmdao.api import DirectSolver
    _, (sh, i1, c1), (_, i2, c2), mode = case
    n = sz(sh)
    prob = make(sh)
    prob.driver = d = driver()
    if mode in ('fd', 'cs'):
        prob.root.deriv_options['type'] = mode
    m1 = n if i1 is None else len(i1)
    m2 = n if i2 is None else len(i2)
    d.add_desvar('p.x', scaler=scal(c1, m1), **({} if i1 is None else {'indices': i1}))
    d.add_constraint('p.x', upper=9., scaler=scal(c2, m2), adder=1., **({} if i2 is None else {'indices': i2}))
    d.add_objective('c.y', scaler=3.)
    prob.setup(check=False)
    prob.run()
    e1, e2 = (list(range(n)) if ix is None else ix for ix in (i1, i2))
    I = np.eye(n)[np.ix_(e2, e1)]
    Y = np.diag(4. * flat(val(sh)) + 1.)[:, e1]
    s1, s2 = np.ones(m1) * scal(c1, m1), np.ones(m2) * scal(c2, m2)
    same(R, 'constrained-variable', d.get_constraints()['p.x'], (flat(val(sh))[e2] + 1.) * s2)
    same(R, 'constrained-variable', d.get_desvars()['p.x'], flat(val(sh))[e1] * s1)
    for of in (['p.x', 'c.y'], ['c.y', 'p.x'], ['p.x']):
        E = {'p.x': s2[:, None] * I / s1, 'c.y': 3. * Y / s1}
        for fmt in ('dict', 'array'):
            md = 'auto' if mode in ('fd', 'cs') else mode
            g = d.calc_gradient(['p.x'], of, mode=md, return_format=fmt)
            R.step()
            if fmt == 'dict':
                g = np.vstack([np.atleast_2d(g[o]['p.x']) for o in of])
            R.check(relerr(g, np.vstack([E[o] for o in of])) < (1e-5 if mode == 'fd' else 1e-9),
                    'grad:constrained-variable:%s:%s' % (mode, fmt),
                    lambda: '%s: %s expected %s' % (of, g.tolist(), {o: E[o].tolist() for o in of}))
    R.trace()


def run_x(case, R):
    """requests with a sparsity pattern or inactive constraint entries"""
    _, d, r, mode, ex = case
    (s1, i1, c1), (s2, i2, c2) = d, r
    prob, A, B, m1, m2 = jprob(d, r, mode, 'gs')
    drv = prob.driver
    prob.run()
    wrt, of = ['p.x', 'p.z'], ['c.f', 'c.y']
    full = drv.calc_gradient(wrt, of, mode=mode, return_format='dict')
    sp, ina = None, None
    if ex < 4:
        sp = [{'c.f': ['p.x'], 'c.y': ['p.x', 'p.z']}, {'c.f': ['p.x', 'p.z'], 'c.y': ['p.z']},
              {'c.f': ['p.z'], 'c.y': ['p.x']}, {'c.f': wrt, 'c.y': wrt}][ex]
    else:
        ina = {'c.y': [0] if ex == 4 else list(range(m2))}
    got = drv.calc_gradient(wrt, of, mode=mode, return_format='dict', sparsity=sp, inactives=ina)
    R.step(2)
    for o in of:
        for w in wrt:
            if sp is not None and w not in sp[o]:
                R.check(w not in got[o] or got[o][w] is None, 'sparsity-extra', '%s %s' % (o, w))
                continue
            E = np.array(full[o][w])
            if ina and o in ina and mode == 'rev':
                E[ina[o]] = 0.
            R.check(relerr(got[o][w], E) < 1e-12, 'sparsity' if sp else 'inactive',
                    lambda: '%s %s: %s expected %s' % (o, w, got[o][w].tolist(), E.tolist()))
    R.trace()


CFG = [('3', None, '2', '3', None, '2'), ('m', [2, 0], 'a', '3', [1], 'n'), ('m', None, 'a', 'm', [3, 1, 0], 'w'),
       ('s', None, 'n', 's', None, '1')]


def run_h(case, R):
    """histories on two design variables and an object"""
    from openmdao.api import Problem, Group, IndepVarComp, ExecComp
    _, seq, cfg = case
    s1, i1, c1, s2, i2, c2 = CFG[cfg]
    prob = Problem(root=Group())
    prob.root.add('p', IndepVarComp([('a', val(s1)), ('b', val(s2, 2))]))
    prob.root.add('q', IndepVarComp('o', 2.5, pass_by_obj=True))
    prob.root.add('c', ExecComp('y=3.*a*a', a=val(s1) * 0., y=val(s1) * 0.))
    prob.root.add('d', ExecComp('y=2.*b', b=val(s2) * 0., y=val(s2) * 0.))
    prob.root.connect('p.a', 'c.a')
    prob.root.connect('p.b', 'd.b')
    prob.driver = d = driver()
    d.supports['gradients'] = False     # the object is set alongside; no optimizer runs here
    m1 = sz(s1) if i1 is None else len(i1)
    m2 = sz(s2) if i2 is None else len(i2)
    sa, sb = np.ones(m1) * scal(c1, m1), np.ones(m2) * scal(c2, m2)
    d.add_desvar('p.a', scaler=scal(c1, m1), adder=1., **({} if i1 is None else {'indices': i1}))
    d.add_desvar('p.b', scaler=scal(c2, m2), **({} if i2 is None else {'indices': i2}))
    d.add_desvar('q.o')
    d.add_objective('c.y', scaler=2.)
    prob.setup(check=False)
    prob.run()
    M = {'a': flat(val(s1)), 'b': flat(val(s2, 2)), 'o': 2.5}
    y = {'c': 3. * M['a'] ** 2, 'd': 2. * M['b']}
    e1, e2 = (list(range(sz(s1))) if i1 is None else i1), (list(range(sz(s2))) if i2 is None else i2)
    for k, op in enumerate(seq):
        R.step()
        if op == 'sa':
            v = np.array([1., 2., 3., 4.])[:m1] + k
            d.set_desvar('p.a', v)
            M['a'][e1] = v / sa - 1.
        elif op == 'sA':
            v = d.get_desvars()['p.a'] * 2.
            d.set_desvar('p.a', v)
            M['a'][e1] = 2. * (M['a'][e1] + 1.) - 1.
        elif op == 'sb':
            v = np.array([-1., 5., 2., 3.])[:m2] * (k + 1)
            d.set_desvar('p.b', v)
            M['b'][e2] = v / sb
        elif op == 'sp':
            d.set_desvar('q.o', 7.5 + k)
            M['o'] = 7.5 + k
        elif op == 'mod':
            prob['p.a'] = val(s1, k + .5)
            M['a'] = flat(val(s1, k + .5))
        elif op == 'run':
            prob.run()
            y = {'c': 3. * M['a'] ** 2, 'd': 2. * M['b']}
        elif op == 'get':
            d.get_objectives()
            d.get_constraints()
        elif op == 'grad':
            prob.run()
            y = {'c': 3. * M['a'] ** 2, 'd': 2. * M['b']}
            J = d.calc_gradient(['p.a', 'p.b'], ['c.y'], return_format='array')
            E = np.hstack([2. * np.diag(6. * M['a'])[:, e1] / sa, np.zeros((len(M['a']), m2))])
            R.check(relerr(J, E) < 1e-9, 'history:grad', lambda: '%s expected %s' % (J.tolist(), E.tolist()))
        got = d.get_desvars()
        R.check(list(got) == ['p.a', 'p.b', 'q.o'], 'order', str(list(got)))
        same(R, 'history:a', got['p.a'], (M['a'][e1] + 1.) * sa, op)
        same(R, 'history:b', got['p.b'], M['b'][e2] * sb, op)
        R.check(got['q.o'] == M['o'], 'history:object', repr(got['q.o']))
        for n, w in (('p.a', M['a']), ('p.b', M['b']), ('c.y', y['c']), ('d.y', y['d'])):
            same(R, 'history:model', prob[n], w, n)
        R.check(prob['q.o'] == M['o'], 'history:object-model', '%r %r' % (prob['q.o'], M['o']))
        same(R, 'history:objective', d.get_objectives()['c.y'], 2. * y['c'])
    R.trace()
