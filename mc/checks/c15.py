"""C15: design-of-experiments drivers generate exactly the specified case set."""
from itertools import product
import random
import warnings
import numpy as np

PID = 'C15'
LEVEL = 'model_checking'
RULE = ('bounded exhaustive enumeration with controlled randomness: for every layout of design variables (scalars, arrays, matrices, indices, scalar '
        'and array bounds, scalers of both signs, several variables) every number of levels / samples in the bounds is run; for the random '
        'drivers the random source is replaced by a controller and every sequence of choices it can make (permutations, exchanges of the '
        'optimizer) is explored depth first, and seeded runs with the real source are repeated; what the model was called with is compared '
        'with the definition of the case set')
ASSUMPTIONS = ['the numpy uniform source returns values in [low, high); it is played by its extremes and its middle',
               'levels are evenly spaced and include both bounds; a single level is one of the bounds']
NOTE = 'choice sequences are enumerated completely by the number of deviations from the first alternative: all with one, and further levels up to a stated number of sequences (the evidence counts how many cases were complete)'

# name -> list of (variable, initial value, desvar arguments, (lower, upper) per varied entry in the model's values, entries that vary)
LAYOUTS = {
    'scalar': [('x', 1., dict(lower=-2., upper=3.), [(-2., 3.)], None)],
    'two': [('x', 1., dict(lower=-2., upper=3.), [(-2., 3.)], None), ('y', 0., dict(lower=10., upper=11.), [(10., 11.)], None)],
    'array': [('x', [1., 2.], dict(lower=0., upper=4.), [(0., 4.)] * 2, None)],
    'arrays': [('x', [1., 2.], dict(lower=np.array([0., -1.]), upper=np.array([4., 1.])), [(0., 4.), (-1., 1.)], None)],
    'halfarray': [('x', [1., 2.], dict(lower=0., upper=np.array([4., 1.])), [(0., 4.), (0., 1.)], None)],
    'matrix': [('x', [[1., 2.], [3., 4.]], dict(lower=-1., upper=1.), [(-1., 1.)] * 4, None)],
    'matrices': [('x', [[1., 2.]], dict(lower=np.array([[-1., -2.]]), upper=np.array([[1., 2.]])), [(-1., 1.), (-2., 2.)], None)],
    'indices': [('x', [1., 2., 3.], dict(lower=0., upper=4., indices=[2, 0]), [(0., 4.)] * 2, [2, 0])],
    'indicesarr': [('x', [1., 2., 3.], dict(lower=np.array([0., 5.]), upper=np.array([4., 6.]), indices=[2, 0]), [(0., 4.), (5., 6.)], [2, 0])],
    'indexone': [('x', [1., 2., 3.], dict(lower=0., upper=4., indices=[1]), [(0., 4.)], [1])],
    'scaled': [('x', 1., dict(lower=-2., upper=3., scaler=4., adder=2.), [(-2., 3.)], None)],
    'negscaled': [('x', 1., dict(lower=-2., upper=3., scaler=-4.), [(-2., 3.)], None)],
    'arrscaled': [('x', [1., 2.], dict(lower=0., upper=4., scaler=np.array([2., -.5]), adder=np.array([0., 1.])), [(0., 4.)] * 2, None)],
    'mixed': [('y', 0., dict(lower=10., upper=11., scaler=.1), [(10., 11.)], None), ('x', [1., 2.], dict(lower=0., upper=4.), [(0., 4.)] * 2, None)],
    'fixed': [('x', 1., dict(lower=2., upper=2.), [(2., 2.)], None), ('y', 0., dict(lower=0., upper=1.), [(0., 1.)], None)],
    'order': [('z', 0., dict(lower=0., upper=1.), [(0., 1.)], None), ('a', 0., dict(lower=5., upper=7.), [(5., 7.)], None),
              ('x', 1., dict(lower=-2., upper=3.), [(-2., 3.)], None)],
}
PER = {'quick': 120, 'thorough': 3000}       # choice sequences per case beyond the first deviation
OPT = ['scalar', 'two', 'indicesarr', 'order', 'matrix', 'negscaled']


def cases(tier):
    q = tier == 'quick'
    out = []
    for l in sorted(LAYOUTS):
        n = sum(len(v[3]) for v in LAYOUTS[l])
        for levels in range(1, 6 if q else 9):
            if levels ** n <= (700 if q else 5000):
                out.append(['full', l, levels, None])
        for N in range(1, 5 if q else 6):
            for m in range(3):
                out.append(['lhc', l, N, [m, PER[tier]]])
                out.append(['uniform', l, N, [m, PER[tier]]])
            if q and l not in OPT:
                continue
            # population, generations, norm
            for pop, gen, norm in product((1, 2), (1, 2, 3, 4), (1, 2)):
                if norm == 2 and (pop, gen) != (2, 3):
                    continue
                out.append(['opt', l, N, [pop, gen, norm, PER[tier]]])
        for kind in ('lhc', 'uniform', 'opt'):
            for N in (1, 2, 3, 7, 20):
                if kind == 'opt' and N == 20 and q:
                    continue
                for seed in range(4 if q else 30):
                    out.append(['seed', l, N, [kind, seed]])
        for k in range(6):
            out.append(['cases', l, k, None])
    return out


def run(case, R):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        go(case, R)
    R.trace()


class Stuck(Exception):
    pass


class Choices(object):
    """plays one sequence of choices, then the first alternative each time"""
    def __init__(self, path):
        self.path = path
        self.taken = []

    def __call__(self, n):
        i = len(self.taken)
        if i > 3000:
            raise Stuck()
        # beyond a depth the alternatives are gone through in turn, so that 'until it differs' ends
        c = self.path[i] if i < len(self.path) else (0 if i < 200 else i % n)
        self.taken.append((c, n))
        return c


class Controlled(object):
    """the random module and numpy's uniform under control"""
    def __init__(self, choose, mode):
        self.choose, self.mode = choose, mode

    def __enter__(self):
        self.inst = random._inst
        self.inst._randbelow = self.choose
        self.uniform = np.random.uniform
        np.random.uniform = self.draw

    def __exit__(self, *a):
        del self.inst._randbelow
        np.random.uniform = self.uniform

    def draw(self, low=0., high=1., size=None):
        low, high = np.asarray(low, float), np.asarray(high, float)
        v = low if self.mode == 0 else (low + high) / 2. if self.mode == 1 else np.maximum(low, np.nextafter(high, low))
        if size is not None:
            v = np.zeros(size) + v
        return v if np.ndim(v) else float(v)


def build(layout, driver):
    from openmdao.api import Problem, Group, IndepVarComp, Component
    seen = []

    class Log(Component):
        def __init__(self):
            super(Log, self).__init__()
            for v, init, kw, b, idx in layout:
                self.add_param(v, np.array(init) * 0. if isinstance(init, list) else init if isinstance(init, str) else 0.)
            self.add_output('f', 0.)

        def solve_nonlinear(self, p, u, r):
            seen.append({v[0]: np.array(p[v[0]]) if not isinstance(v[1], str) else p[v[0]] for v in layout})
            u['f'] = float(len(seen))
    prob = Problem(root=Group(), driver=driver)
    for v, init, kw, b, idx in layout:
        prob.root.add('ind_' + v, IndepVarComp(v, np.array(init) if isinstance(init, list) else init), promotes=['*'])
        prob.driver.add_desvar(v, **kw)
    prob.root.add('log', Log(), promotes=['*'])
    prob.setup(check=False)
    return prob, seen


def entries(layout, point):
    """values of the varied entries, those of the others"""
    vary, rest = [], []
    for v, init, kw, b, idx in layout:
        flat = np.ravel(point[v])
        idx = list(range(flat.size)) if idx is None else idx
        vary.extend(flat[idx])
        rest.extend((flat[i], np.ravel(init)[i]) for i in range(flat.size) if i not in idx)
    return vary, rest


def bounds(layout):
    return [b for v in layout for b in v[3]]


def common(R, layout, seen, n):
    R.check(len(seen) == n, 'number-of-cases', lambda: '%s instead of %s' % (len(seen), n))
    pts = []
    for s in seen:
        v, rest = entries(layout, s)
        pts.append(v)
        R.check(all(a == b for a, b in rest), 'other-entries-changed', lambda: str(s))
    return np.array(pts).reshape(len(seen), -1)


def go(case, R):
    from openmdao.api import FullFactorialDriver, UniformDriver, LatinHypercubeDriver, CaseDriver
    from openmdao.drivers.latinhypercube_driver import OptimizedLatinHypercubeDriver
    kind, lname, N, arg = case
    layout = LAYOUTS[lname]
    bnds = bounds(layout)

    def latin(pts, tag):
        for (lo, hi), col in zip(bnds, pts.T):
            w = np.linspace(lo, hi, N + 1)
            tol = 1e-12 * (1. + abs(lo) + abs(hi))
            s = np.sort(col)
            R.check(len(s) == N and np.all(s >= w[:-1] - tol) and np.all(s <= w[1:] + tol), 'one-per-bin:%s' % tag, lambda: '%s in %s' % (s, w))

    def inside(pts):
        for (lo, hi), col in zip(bnds, pts.T):
            tol = 1e-12 * (1. + abs(lo) + abs(hi))
            R.check(np.all(col >= lo - tol) and np.all(col <= hi + tol), 'inside-bounds', lambda: '%s in %s' % (col, (lo, hi)))
    if kind == 'full':
        prob, seen = build(layout, FullFactorialDriver(num_levels=N))
        for again in range(2):
            del seen[:]
            prob.run()
            pts = common(R, layout, seen, N ** len(bnds))
            want = np.array(list(product(*[np.linspace(lo, hi, N) if N > 1 else [lo] for lo, hi in bnds])))
            if N == 1:
                # either bound, as 'lower' is the upper one if a scaler is negative
                R.check(len(pts) == 1 and all(min(abs(p - lo), abs(p - hi)) < 1e-9 for p, (lo, hi) in zip(pts[0], bnds)), 'single-level', lambda: '%s' % pts)
                continue
            left = [tuple(np.round(p, 9) + 0.) for p in pts]
            wl = [tuple(np.round(p, 9) + 0.) for p in want]
            R.check(sorted(left) == sorted(wl), 'cross-product', lambda: '%s instead of %s' % (sorted(left)[:20], sorted(wl)[:20]))
            R.step(len(seen))
        R.state((kind, lname, N))
    elif kind in ('lhc', 'uniform', 'opt'):
        mode, per = arg[0] if kind != 'opt' else 1, arg[-1]
        level, todo, after, count = 0, [[]], [], 0
        while todo:
            path = todo.pop()
            choose = Choices(path)
            if kind == 'lhc':
                d = LatinHypercubeDriver(num_samples=N)
            elif kind == 'uniform':
                d = UniformDriver(num_samples=N)
            else:
                d = OptimizedLatinHypercubeDriver(num_samples=N, population=arg[0], generations=arg[1], norm_method=arg[2])
                d.qs = [2]
            prob, seen = build(layout, d)
            try:
                with Controlled(choose, mode):
                    prob.run()
            except Stuck:
                R.fail('does-not-end', str(choose.taken[:10]))
                return
            pts = common(R, layout, seen, N)
            inside(pts)
            if kind != 'uniform':
                latin(pts, kind)
            R.step(len(seen))
            R.state((kind, lname, N, tuple(arg), tuple(c for c, n in choose.taken)))
            count += 1
            t = [c for c, n in choose.taken]
            for i in range(len(path), len(t)):
                after.extend(t[:i] + [c] for c in range(1, choose.taken[i][1]))
            if not todo:
                # all sequences with this many deviations from the first alternative are done
                if level == 0 or count + len(after) <= per:
                    todo, after = after, []
                    level += 1
        R.note('all-choices' if not after else 'up-to-%d-deviations' % level)
    elif kind == 'seed':
        which, seed = arg
        runs = []
        for again in range(2):
            if which == 'lhc':
                d = LatinHypercubeDriver(num_samples=N, seed=seed)
            elif which == 'uniform':
                d = UniformDriver(num_samples=N, seed=seed)
            else:
                d = OptimizedLatinHypercubeDriver(num_samples=N, seed=seed, population=5, generations=4)
            random.seed(again + 77)
            np.random.seed(again + 77)
            prob, seen = build(layout, d)
            for j in range(2):
                del seen[:]
                prob.run()
                pts = common(R, layout, seen, N)
                inside(pts)
                if which != 'uniform':
                    latin(pts, which)
                runs.append(pts)
                R.step(N)
        R.check(all(np.array_equal(runs[0], r) for r in runs), 'same-seed', lambda: '%s' % runs)
        R.state((kind, lname, N, which, seed))
    else:
        # lists of cases, some setting part of the variables, some as generators, in this order
        rs = np.random.RandomState(N)
        names = [v[0] for v in layout]

        def scaled(v, k):
            nm, init, kw, b, idx = v
            lo = np.array([x[0] for x in b])
            hi = np.array([x[1] for x in b])
            phys = lo + (hi - lo) * k
            sc, ad = kw.get('scaler', 1.), kw.get('adder', 0.)
            s = (phys + ad) * sc
            return phys, (s if np.ndim(init) else float(s[0]))
        cs, want = [], []
        now = {v[0]: np.ravel(np.array(v[1])).astype(float) for v in layout}
        for i in range(N):
            one = []
            for j, v in enumerate(layout):
                if (i + j) % 3 == 2:
                    continue        # this case leaves it alone
                phys, s = scaled(v, rs.rand())
                one.append((v[0], s))
                idx = v[4] if v[4] is not None else list(range(now[v[0]].size))
                now[v[0]][idx] = phys
            cs.append(one if i % 2 else tuple(one))
            want.append({k: a.copy() for k, a in now.items()})
        prob, seen = build(layout, CaseDriver(cases=cs))
        prob.run()
        R.check(len(seen) == N, 'number-of-cases', lambda: '%s instead of %s' % (len(seen), N))
        for a, b in zip(seen, want):
            R.check(all(np.allclose(np.ravel(a[k]), b[k], rtol=1e-13, atol=1e-13) for k in names), 'cases-in-order', lambda: '%s instead of %s' % (a, b))
            R.step()
        R.state((kind, lname, N))
