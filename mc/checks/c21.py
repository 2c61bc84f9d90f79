"""C21: surrogates reproduce their training data and differentiate what they predict."""
from itertools import combinations, product
import contextlib
import io
import logging
import warnings
import numpy as np

PID = 'C21'
LEVEL = 'model_checking'
RULE = ('exhaustive enumeration of the training sets of a size on 1-, 2- and 3-dimensional grids, responses and options for every surrogate of the '
        'real code, each trained and queried at every training point and at fixed points between them; training data, quadratics and numerically '
        'differentiated predictions are the oracle. All sequences of train, predict and linearize calls up to a depth are executed '
        'and every answer is compared with the answer of a new object')
ASSUMPTIONS = ['derivatives are only judged where one-sided differences of the prediction agree (interpolants switch neighbours elsewhere)',
               'nearest-neighbour weights of exactly singular systems, repeated points, co-kriging of jumping responses and of dependent regression terms are excluded']
NOTE = 'kriging data are reproduced to 3e-3 (thorough families 2e-2) of the range of the response (the code regularises its correlation matrix)'

GRID1 = [0., 1., 1.8, 3., 4.5, 5.2]
GRID2 = [(0., 0.), (1., .1), (2.1, 0.), (.1, 1.1), (1.2, 1.), (2., 1.2), (0., 2.1), (.9, 2.), (2.2, 2.3)]
SQUARE = [(float(i), float(j)) for i in range(3) for j in range(3)]
CUBE = [(float(i), float(j), float(k)) for i in range(2) for j in range(2) for k in range(2)] + [(.4, .6, .3), (.7, .2, .8)]

RESP = [lambda p: 1. + np.sum(p), lambda p: np.sin(1.3 * np.sum(p) + .4 * p[0]) * 2., lambda p: np.sum(np.square(p)) - 3. * p[0] * p[-1] + 2.,
        lambda p: float((int(np.sum(np.floor(np.multiply(p, 3.)))) * 7) % 5) - 1.]
OUTS = [[0], [1], [2], [3], [1, 3], [2, 0]]


def sets(dim, sizes, which='free'):
    grid = {1: [(v,) for v in GRID1], 2: GRID2 if which == 'free' else SQUARE, 3: CUBE}[dim]
    return [list(map(list, c)) for n in sizes for c in combinations(grid, n)]


def high(dim):
    """points in general position in more than three dimensions"""
    return [tuple(round(((k + 1) * a * .1379 + .07 * k * k * (j + 1)) % 1., 3) for j, a in enumerate((2, 3, 5, 7, 11, 13, 17)[:dim])) for k in range(dim + 5)]


def nn_configs(dim, n):
    out = [('linear', {}, {})] if n >= dim + 1 else []
    for k in (2, 3, 5):
        if k <= n:
            out += [('weighted', {}, {'n': k, 'dist_eff': d}) for d in (0, 2, 3)]
    if n >= 5:
        out += [('weighted', {}, {})]
    for k in (3, 5):
        if k <= n:
            out += [('rbf', {'n': k, 'comp': c}, {}) for c in range(-3, 5)]
    return out


def cases(tier):
    q = tier == 'quick'
    out = []
    for dim, sizes, which in [(1, (3, 4, 5, 6), ''), (2, (4, 5) if q else (3, 4, 5, 6, 7), 'free'), (2, (4,) if q else (3, 4, 5, 6), 'square'), (3, (5,) if q else (4, 5, 6), '')]:
        ss = sets(dim, sizes, which)
        step = {1: 1, 2: 6, 3: 12}[dim] if q else 1
        for k in range(0, len(ss), step):
            out.append(['nn', ss[k], dim])
    for dim in (4, 5, 6, 7):
        pool = high(dim)
        ss = [list(map(list, c)) for c in combinations(pool, dim + 2)]
        for k in range(0, len(ss), max(1, len(ss) // (4 if q else 24))):
            out.append(['nn', ss[k], dim])
    for dim, sizes, which in [(1, (3, 4, 5), ''), (2, (5, 6), 'free'), (2, (5,), 'square'), (3, (6,), '')]:
        ss = sets(dim, sizes, which)
        step = {1: 2, 2: 9, 3: 18}[dim] if q else 1
        for k in range(0, len(ss), step):
            out.append(['krig', ss[k]])
    for dim, sizes, which in [(1, (2, 3, 4, 6), ''), (2, (3, 6, 7), 'free'), (2, (6, 7, 9), 'square'), (3, (5, 10), '')]:
        ss = sets(dim, sizes, which)
        step = {1: 1, 2: 4, 3: 8}[dim] if q else 1
        for k in range(0, len(ss), step):
            out.append(['rs', ss[k]])
    for dim in (1, 2):
        for levels in (1, 2, 3):
            for resp in range(4):
                for regr in ('constant', 'linear'):
                    for rho in ('constant', 'linear'):
                        for theta in ('none', 'theta', 'theta0', 'bounds'):
                            if rho == 'linear' and levels == 1:
                                continue
                            out.append(['cokrig', dim, levels, resp, regr, rho, theta])
    for kind in sorted(KINDS):
        for first in HOPS:
            for second in HOPS:
                out.append(['hist', kind, [first, second], 3 if q else 5])
    names = sorted(k for k in KINDS if k != 'cokrig')
    for pair in product(names, repeat=2):
        for dim in (1, 2):
            out.append(['mm', list(pair), dim])
    for trio in product(names, repeat=3):
        if not q or len(set(trio)) == 3:
            out.append(['mm', list(trio), 2])
    out.append(['misuse'])
    return out


def run(case, R):
    logging.disable(logging.CRITICAL)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
            globals()['run_' + case[0]](case, R)
    R.trace()


# ------------------------------------------------------------------ pieces
def data(pts, outs):
    x = np.array(pts, float)
    return x, np.array([[RESP[o](p) for o in outs] for p in pts], float)


def queries(x):
    """fixed points between and beyond the data, away from ties"""
    lo, hi = x.min(axis=0), x.max(axis=0)
    n = x.shape[1]
    a = np.array([.317, .613, .471, .527, .381, .643, .297])[:n]
    b = np.array([.731, .229, .877, .331, .797, .409, .683])[:n]
    return [lo + a * (hi - lo), lo + b * (hi - lo), lo + (hi - lo) * np.array([1.093, 1.04, .97, 1.02, .91, 1.01, .95])[:n], x[0] + (x[1] - x[0]) * .21 + .013 * np.arange(1, n + 1)]


def differences(f, x, scale, h):
    """numerical Jacobian by extrapolated central differences, or None where it is not smooth"""
    cols = []
    for i in range(x.size):
        def at(s):
            p = x.copy()
            p[i] += s * h
            return np.ravel(f(p))
        f0 = np.ravel(f(x.copy()))
        v = dict((s, at(s)) for s in (-2, -1, -.5, .5, 1, 2))
        one = abs((v[.5] - f0) - (f0 - v[-.5])) / (.5 * h)
        two = abs((v[1] - f0) - (f0 - v[-1])) / h
        four = abs((v[2] - f0) - (f0 - v[-2])) / (2 * h)
        if not np.all(np.isfinite(one)) or np.any(one > 2e-2 * scale) or np.any(abs(two - 2 * one) > 3e-3 * scale) or np.any(abs(four - 2 * two) > 6e-3 * scale):
            cols.append(None)
            continue
        c1, c2 = (v[1] - v[-1]) / (2 * h), (v[.5] - v[-.5]) / h
        c = (4 * c2 - c1) / 3.
        if np.any(abs(c2 - c1) > 1e-3 * scale):
            cols.append(None)
            continue
        cols.append(c)
    return cols


def scales(x, y):
    xr = max(1e-300, np.min([r for r in np.ptp(x, axis=0) if r > 0] or [1.]))
    yr = max(np.max(np.ptp(y, axis=0)), 1e-3)
    return xr, yr


def mean(v):
    return v[0] if isinstance(v, tuple) else v


def derivative(R, s, x, pts, y, label, pk, gtol=1e-5):
    """linearize agrees with the differences of predict; returns how many were judged"""
    xr, yr = scales(x, y)
    judged = 0
    for p in pts:
        p = np.array(p, float)
        cols = None
        for first in ('predict', 'linearize'):
            arg = p.copy()
            if first == 'predict':
                s.predict(arg.copy(), **pk)
            try:
                J = np.array(s.linearize(arg, **pk))
            except Exception as e:
                R.fail('linearize:%s' % type(e).__name__, [label, p, str(e)[:200]])
                continue
            R.check(arg.shape == p.shape and np.array_equal(arg, p), 'query-modified', [label, 'linearize', arg.shape])
            R.check(J.shape == (y.shape[1], x.shape[1]), 'derivative-shape', [label, J.shape])
            if J.shape != (y.shape[1], x.shape[1]):
                continue
            scale = max(yr / xr, np.nanmax(abs(J)) if np.isfinite(J).any() else 0.)
            cols = cols or differences(lambda q: mean(s.predict(q, **pk)), p, yr / xr, 1e-3 * xr)
            for i, c in enumerate(cols):
                if c is None:
                    R.step()
                    continue
                judged += 1
                tol = 5e-3 if any(np.array_equal(p, v) for v in x) else gtol      # neighbours may change with the direction
                R.check(np.allclose(J[:, i], c, 0, tol * scale), 'derivative', [label, first, p, i, J[:, i], c])
        if any(np.array_equal(p, v) for v in x):
            continue
        try:
            cs = np.array([np.imag(np.ravel(mean(s.predict(p + 1e-20j * e, **pk)))) / 1e-20 for e in np.eye(p.size)]).T
            J = np.array(s.linearize(p.copy(), **pk))
            R.check(cs.shape == J.shape and np.allclose(cs, J, 1e-7, 1e-7 * yr / xr), 'complex-step', [label, p, cs, J])
        except Exception as e:
            R.fail('complex-step:%s' % type(e).__name__, [label, p, str(e)[:200]])
        R.state([label, p])
    return judged


def reproduces(R, s, x, y, label, pk, tol):
    yr = scales(x, y)[1]
    for k, p in enumerate(x):
        arg = p.copy()
        try:
            v = np.array(mean(s.predict(arg, **pk)))
        except Exception as e:
            R.fail('predict:%s' % type(e).__name__, [label, p, str(e)[:200]])
            return False
        R.check(arg.shape == p.shape and np.array_equal(arg, p), 'query-modified', [label, arg.shape])
        R.check(v.size == y.shape[1], 'prediction-size', [label, v.shape])
        if v.size == y.shape[1] and not R.check(np.allclose(np.ravel(v), y[k], 0, tol * yr), 'training-point', [label, p, np.ravel(v), y[k]]):
            pass
        R.step()
    return True


def batch(R, s, x, label, pk, grad=True):
    """several points in one call give what single calls give"""
    pts = np.array(queries(x)[:3])
    for n in (2, 3):
        try:
            many = np.array(mean(s.predict(pts[:n].copy(), **pk)))
        except Exception as e:
            R.fail('batch:%s' % type(e).__name__, [label, n, str(e)[:200]])
            return
        single = np.array([np.ravel(mean(s.predict(p.copy(), **pk))) for p in pts[:n]])
        R.check(many.shape == single.shape and np.allclose(many, single, 1e-9, 1e-9), 'batch', [label, n, many, single])
        if grad:
            try:
                J = np.array(s.linearize(pts[:n].copy(), **pk))
            except Exception as e:
                R.fail('batch-linearize:%s' % type(e).__name__, [label, n, str(e)[:200]])
                return
            one = np.array([s.linearize(p.copy(), **pk) for p in pts[:n]])
            R.check(J.shape == one.shape and np.allclose(J, one, 1e-8, 1e-8), 'batch-derivative', [label, n, J, one])
    R.step()


# ------------------------------------------------------------------ nearest neighbours
def run_nn(case, R):
    from openmdao.api import NearestNeighbor
    _, pts, dim = case
    judged = 0
    for outs in OUTS[1:5]:
        x, y = data(pts, outs)
        for kind, init, pk in nn_configs(dim, len(pts)):
            label = [kind, init, pk, outs]
            s = NearestNeighbor(kind, **init)
            tx, ty = x.copy(), y.copy()
            try:
                s.train(tx, ty)
            except Exception as e:
                R.fail('train:%s' % type(e).__name__, [label, str(e)[:200]])
                continue
            R.check(np.array_equal(tx, x) and np.array_equal(ty, y), 'training-data-modified', label)
            if kind == 'rbf' and not well_posed(x, init['n'], s, init['comp']):
                continue
            tx += 17.
            ty -= 5.
            reproduces(R, s, x, y, label, pk, 1e-6 if kind == 'rbf' else 1e-8)
            cusp = kind == 'rbf' and init['comp'] == 0
            judged += derivative(R, s, x, queries(x) + ([] if cusp else [x[0], x[-1]]), y, label, pk)
            if outs in OUTS[3:5]:
                batch(R, s, x, label, pk)
    R.note('judged', judged)


# value of the basis functions at distance zero, by dimension
AT_ZERO = {1: {1: 1 / 12., 2: 3 / 840., 3: 15 / 151200., 4: 105 / 51891840.}, 2: {1: 1 / 20., 2: 3 / 1680., 3: 15 / 332640., 4: 105 / 121080960.},
           3: {1: 1 / 30., 2: 3 / 3024., 3: 15 / 665280., 4: 105 / 259459200.}, 4: {1: 1 / 42., 2: 3 / 5040., 3: 15 / 1235520., 4: 105 / 518918400.}}


def well_posed(x, n, s, comp):
    """the code solves a linear system for the weights; where that is (nearly) singular nothing is claimed"""
    w = s.interpolant.weights
    return np.all(np.isfinite(w)) and np.max(abs(w)) * AT_ZERO[min((x.shape[1] + 2) // 2, 4)].get(comp, 8.) < 1e5


# ------------------------------------------------------------------ kriging
def run_krig(case, R):
    from openmdao.api import KrigingSurrogate, FloatKrigingSurrogate
    pts = case[1]
    for outs in OUTS:
        x, y = data(pts, outs)
        for rmse in (False, True):
            s = KrigingSurrogate(eval_rmse=rmse)
            label = ['kriging', rmse, outs]
            tx, ty = x.copy(), y.copy()
            try:
                s.train(tx, ty)
            except ValueError as e:
                R.step()
                continue        # the optimiser says that it failed
            R.check(np.array_equal(tx, x) and np.array_equal(ty, y), 'training-data-modified', label)
            tx += 17.
            ty -= 5.
            reproduces(R, s, x, y, label, {}, 2e-2)
            derivative(R, s, x, queries(x) + [x[0], x[-1]], y, label, {}, 1e-4)
            batch(R, s, x, label, {}, False)
            if rmse:
                for p, v in [(p, 0.) for p in x] + [(p, None) for p in queries(x)]:
                    m, e = s.predict(p.copy())
                    R.check(np.shape(e) == np.shape(m), 'rmse-shape', [label, np.shape(e), np.shape(m)])
                    R.check(v is None or np.all(abs(e) < 1e-3 * scales(x, y)[1] * 10), 'rmse-at-data', [label, p, e])
                m, e = s.predict(np.array(queries(x)))
                one = np.array([np.ravel(s.predict(p.copy())[1]) for p in queries(x)])
                R.check(np.shape(e) == np.shape(m) and np.allclose(e, one, 1e-6, 1e-8), 'rmse-batch', [label, np.shape(e), np.shape(m), e, one])
        if len(outs) == 1:
            f = FloatKrigingSurrogate()
            try:
                f.train(x, y)
            except ValueError:
                continue
            s = KrigingSurrogate()
            s.train(x, y)
            for p in list(x) + queries(x):
                R.check(np.allclose(np.ravel(f.predict(p.copy())), np.ravel(s.predict(p.copy()))), 'float-kriging', [outs, p])
        R.state([pts, outs])


# ------------------------------------------------------------------ response surfaces
def monomials(n):
    return [()] + [(i,) for i in range(n)] + [(i, j) for i in range(n) for j in range(i, n)]


def run_rs(case, R):
    from openmdao.api import ResponseSurface
    pts = case[1]
    x = np.array(pts, float)
    n = x.shape[1]
    mons = monomials(n)

    def val(mon, p):
        return np.prod([p[i] for i in mon]) if mon else 1.

    def grad(mon, p):
        g = np.zeros(n)
        for k, i in enumerate(mon):
            g[i] += np.prod([p[j] for m, j in enumerate(mon) if m != k]) if len(mon) > 1 else 1.
        return g
    A = np.array([[val(m, p) for m in mons] for p in pts])
    sv = np.linalg.svd(A)[1]
    rank = np.sum(sv > 1e-9 * sv[0])
    exact = rank == len(mons)
    combos = [[[(1., m)]] for m in mons] + [[[(1. + k, m) for k, m in enumerate(mons)]]] + [[[(-2., mons[0]), (1., mons[-1])], [(.5, mons[-1]), (3., mons[1])]]]
    for polys in combos:
        y = np.array([[sum(c * val(m, p) for c, m in poly) for poly in polys] for p in pts])
        s = ResponseSurface()
        label = ['rs', len(pts), polys]
        tx, ty = x.copy(), y.copy()
        s.train(tx, ty)
        R.check(np.array_equal(tx, x) and np.array_equal(ty, y), 'training-data-modified', label)
        tx += 17.
        ty -= 5.
        reproduces(R, s, x, y, label, {}, 1e-8)
        derivative(R, s, x, queries(x), y, label, {}, 1e-6)
        if exact:
            for p in queries(x):
                w = [sum(c * val(m, p) for c, m in poly) for poly in polys]
                R.check(np.allclose(np.ravel(s.predict(p.copy())), w, 1e-7, 1e-7), 'quadratic', [label, p, s.predict(p.copy()), w])
                J = np.array([sum(c * grad(m, p) for c, m in poly) for poly in polys])
                R.check(np.allclose(s.linearize(p.copy()), J, 1e-6, 1e-6), 'quadratic-derivative', [label, p, s.linearize(p.copy()), J])
                cs = np.array([np.imag(np.ravel(s.predict(p + 1e-20j * np.eye(n)[i]))) / 1e-20 for i in range(n)]).T
                R.check(np.allclose(cs, J, 1e-6, 1e-6), 'complex-step', [label, p, cs, J])
        R.state([pts, polys])
    # other responses: least squares, that is the residual is orthogonal to all quadratics
    for outs in ([1], [3], [1, 3]):
        _, y = data(pts, outs)
        s = ResponseSurface()
        s.train(x.copy(), y.copy())
        res = np.array([np.ravel(s.predict(p.copy())) for p in x]) - y
        R.check(np.allclose(A.T.dot(res), 0, 0, 1e-7 * max(1, np.max(abs(A)))), 'least-squares', [outs, A.T.dot(res)])
        derivative(R, s, x, queries(x), y, ['rs', outs], {}, 1e-6)


# ------------------------------------------------------------------ co-kriging
def levels_data(dim, levels, resp):
    grid = [(v,) for v in np.linspace(0., 1., 11)] if dim == 1 else [(a / 3. + .03 * b, b / 3.) for a in range(4) for b in range(4)]
    xs, ys = [], []
    keep = list(range(len(grid)))
    for lvl in range(levels):
        if lvl:
            keep = keep[lvl % 2::2] if len(keep) > 8 else keep[:-1]
        pts = [grid[k] for k in keep]
        xs.append(pts)
        ys.append([[RESP[resp](np.multiply(p, 3.)) * (1. + .3 * (levels - 1 - lvl)) + .2 * (levels - 1 - lvl) * p[0]] for p in pts])
    # nested designs: each level ends with the points of the next one
    for lvl in range(levels - 2, -1, -1):
        nxt = xs[lvl + 1]
        order = [k for k, p in enumerate(xs[lvl]) if p not in nxt] + [xs[lvl].index(p) for p in nxt]
        xs[lvl] = [xs[lvl][k] for k in order]
        ys[lvl] = [ys[lvl][k] for k in order]
    return [np.array(v, float) for v in xs], [np.array(v, float) for v in ys]


def regular(xs, ys, regr, rho):
    """the regression terms are independent on the data of every level"""
    for k, x in enumerate(xs):
        F = [np.ones(len(x))] + (list(x.T) if regr == 'linear' else [])
        if k:
            prev = ys[k - 1][-len(x):, 0]
            F += [prev] + ([prev * c for c in x.T] if rho == 'linear' else [])
        if len(F) >= len(x) or np.linalg.cond(np.array(F).T) > 1e6:
            return False
    return True


def cokrig(regr, rho, theta, dim):
    from openmdao.api import MultiFiCoKrigingSurrogate
    kw = {'none': {}, 'theta': {'theta': .4}, 'theta0': {'theta0': .3}, 'bounds': {'theta0': .5, 'thetaL': .1, 'thetaU': 3.}}[theta]
    if dim > 1:
        kw = dict((k, np.ones(dim) * v) for k, v in kw.items())
    return MultiFiCoKrigingSurrogate(regr=regr, rho_regr=rho, **kw)


def run_cokrig(case, R):
    from openmdao.api import FloatMultiFiCoKrigingSurrogate
    _, dim, levels, resp, regr, rho, theta = case
    xs, ys = levels_data(dim, levels, resp)
    if not regular(xs, ys, regr, rho):
        R.step()
        return
    s = cokrig(regr, rho, theta, dim)
    tx, ty = [v.copy() for v in xs[::-1]], [v.copy() for v in ys[::-1]]
    try:
        if levels == 1:
            s.train(tx[0], ty[0])
        else:
            s.train_multifi(tx, ty)
    except Exception as e:
        R.fail('cokriging:%s' % type(e).__name__, [case, str(e)[:200]])
        return
    R.check(all(np.array_equal(a, b) for a, b in zip(tx + ty, xs[::-1] + ys[::-1])), 'training-data-modified', case)
    if resp < 3:        # round-off times a huge variance for the jumping response
        reproduces(R, s, xs[-1], ys[-1], case, {}, 1e-4)
    yr = scales(xs[-1], ys[-1])[1]
    for p in (xs[-1] if resp < 3 else ()):
        R.check(abs(s.predict(p.copy())[1]).max() < 1e-2 * yr, 'rmse-at-data', [case, p, s.predict(p.copy())[1]])
    # trained again: other data first, then these
    t = cokrig(regr, rho, theta, dim)
    ox, oy = levels_data(dim, levels, (resp + 1) % 4)
    try:
        t.train_multifi(ox[::-1], [v * 2. + x[:, :1] for v, x in zip(oy, ox)][::-1])
    except Exception as e:
        pass
    t.train_multifi([v.copy() for v in xs[::-1]], [v.copy() for v in ys[::-1]])
    f = FloatMultiFiCoKrigingSurrogate(**dict((k, v) for k, v in [('regr', regr), ('rho_regr', rho)]))
    for p in list(xs[-1][:3]) + queries(xs[-1]):
        a, b = s.predict(p.copy()), t.predict(p.copy())
        R.check(np.allclose(a[0], b[0], 1e-7, 1e-7 * yr) and np.allclose(a[1], b[1], 1e-4, 1e-4 * yr), 'retrained', [case, p, a, b])
    if theta == 'none':
        f.train_multifi([v.copy() for v in xs[::-1]], [v.copy() for v in ys[::-1]])
        for p in queries(xs[-1]):
            try:
                v = f.predict(p.copy())
                R.check(np.size(v) == 1 and not isinstance(v, tuple) and np.allclose(v, s.predict(p.copy())[0]), 'float-cokriging', [case, p, v])
            except Exception as e:
                R.fail('float-cokriging:%s' % type(e).__name__, [case, str(e)[:200]])
    many = s.predict(np.array(queries(xs[-1]))) if False else None
    R.state(case)


# ------------------------------------------------------------------ histories
SETA = [[0., 0.], [1., .1], [2.1, 0.], [.1, 1.1], [1.2, 1.], [2., 1.2], [0., 2.1]]
SETB = [[.3, .2], [1.1, .9], [2.3, .4], [.4, 1.4], [1.7, 1.9], [.1, .8]]
PTS = {'p': [.83, .61], 'near': [.83 + 4e-6, .61 - 3e-6], 'far': [1.61, .87], 'data': [1.2, 1.]}
HOPS = ['A', 'B', 'predict:p', 'predict:near', 'predict:far', 'predict:data', 'linearize:p', 'linearize:near', 'linearize:far', 'batch', 'mutate']


def _nn(kind, init, pk):
    def make():
        from openmdao.api import NearestNeighbor
        return NearestNeighbor(kind, **init), pk
    return make


def _kr():
    from openmdao.api import KrigingSurrogate
    return KrigingSurrogate(), {}


def _rs():
    from openmdao.api import ResponseSurface
    return ResponseSurface(), {}


def _ck():
    from openmdao.api import MultiFiCoKrigingSurrogate
    return MultiFiCoKrigingSurrogate(), {}


KINDS = {'linear': _nn('linear', {}, {}), 'weighted': _nn('weighted', {}, {}), 'weighted3': _nn('weighted', {}, {'n': 3, 'dist_eff': 2}), 'rbf': _nn('rbf', {}, {}),
         'rbf-1': _nn('rbf', {'comp': -1, 'n': 4}, {}), 'kriging': _kr, 'rs': _rs, 'cokrig': _ck}
TRAIN = {'A': lambda: data(SETA, [1, 3]), 'B': lambda: data(SETB, [2, 1])}
ANSWERS = {}


def train_args(kind, which):
    x, y = TRAIN[which]()
    return (x, y[:, :1]) if kind == 'cokrig' else (x, y)


def answer(kind, which, op, pk_other=None):
    """what an object trained with this data only answers to this call only"""
    key = (kind, which, op)
    if key not in ANSWERS:
        s, pk = KINDS[kind]()
        s.train(*train_args(kind, which))
        ANSWERS[key] = call(s, op, pk)
    return ANSWERS[key]


def call(s, op, pk):
    if op == 'batch':
        return np.array(mean(s.predict(np.array([PTS['p'], PTS['far']]), **pk)))
    how, p = op.split(':')
    arg = np.array(PTS[p])
    v = np.array(mean(getattr(s, how)(arg, **pk)))
    return v if arg.shape == (2,) and list(arg) == PTS[p] else 'argument modified'


def run_hist(case, R):
    _, kind, first, depth = case

    def rec(hist):
        go(hist)
        if len(hist) < depth:
            for op in HOPS:
                if op == 'batch' and kind in ('cokrig', 'rs'):
                    continue
                rec(hist + [op])

    def go(hist):
        if kind == 'rs' and 'batch' in hist:
            return
        if kind == 'cokrig' and (any(op.startswith('lin') or op == 'batch' for op in hist)):
            return
        s, pk = KINDS[kind]()
        which = 'A'
        args = train_args(kind, which)
        s.train(*args)
        for k, op in enumerate(hist):
            if op in ('A', 'B'):
                which = op
                args = train_args(kind, which)
                s.train(*args)
            elif op == 'mutate':
                for a in args:
                    a += 3.
            elif k == len(hist) - 1:
                v = call(s, op, pk)
                w = answer(kind, which, op)
                R.check(not isinstance(v, str), 'query-modified', hist)
                tol = 1e-6 if kind == 'cokrig' else 1e-9
                R.check(isinstance(v, str) or isinstance(w, str) or (v.shape == w.shape and np.allclose(v, w, tol, tol)), 'history', [kind, hist, v, w])
            else:
                call(s, op, pk)
        R.state([kind, hist])
        R.step(len(hist))
    rec(list(first))


# ------------------------------------------------------------------ side by side in one metamodel
def run_mm(case, R):
    from openmdao.api import Problem, Group, MetaModel, IndepVarComp
    _, kinds, dim = case
    pts = [p[:dim] for p in SETA] if dim == 2 else [[v] for v in GRID1]
    x = np.array(pts)
    ys = [data(pts, [k])[1] for k in (1, 3, 2)][:len(kinds)]
    alone = []
    for k, y in zip(kinds, ys):
        s, pk = KINDS[k]()
        s.train(x.copy(), y.copy())
        alone.append(s)
    p = Problem(root=Group())
    mm = MetaModel()
    for i in range(dim):
        p.root.add('i%d' % i, IndepVarComp('x', 0.))
        mm.add_param('x%d' % i, 0.)
    for j, k in enumerate(kinds):
        mm.add_output('y%d' % j, 0., surrogate=KINDS[k]()[0])
    p.root.add('mm', mm)
    for i in range(dim):
        p.root.connect('i%d.x' % i, 'mm.x%d' % i)
    p.setup(check=False)
    for i in range(dim):
        p['mm.train:x%d' % i] = [float(v) for v in x[:, i]]
    for j, y in enumerate(ys):
        p['mm.train:y%d' % j] = [float(v) for v in y[:, 0]]
    for q in queries(x)[:3]:
        for i in range(dim):
            p['i%d.x' % i] = q[i]
        try:
            p.run()
            for j, s in enumerate(alone):
                w = np.ravel(s.predict(q.copy()))[0] if not kinds[j].startswith('weighted3') else np.ravel(s.predict(q.copy()))[0]
                R.check(np.allclose(p['mm.y%d' % j], w, 1e-9, 1e-9), 'side-by-side', [kinds, j, q, p['mm.y%d' % j], w])
            for mode in ('fwd', 'rev'):
                J = p.calc_gradient(['i%d.x' % i for i in range(dim)], ['mm.y%d' % j for j in range(len(kinds))], mode=mode, return_format='array')
                w = np.array([np.ravel(s.linearize(q.copy())) for s in alone])
                R.check(np.allclose(J, w, 1e-8, 1e-8), 'side-by-side-derivative', [kinds, mode, q, J, w])
        except Exception as e:
            R.fail('side-by-side:%s' % type(e).__name__, [kinds, q, str(e)[:200]])
        R.state([kinds, q])
        R.step()


# ------------------------------------------------------------------ misuse
def run_misuse(case, R):
    from openmdao.api import NearestNeighbor, KrigingSurrogate, ResponseSurface, MultiFiCoKrigingSurrogate
    for name, make in sorted(KINDS.items()):
        s, pk = make()
        for how in ('predict', 'linearize'):
            try:
                getattr(s, how)(np.array([.5, .5]))
                R.fail('untrained-accepted', [name, how])
            except RuntimeError:
                pass
            except Exception as e:
                R.check(how != 'predict', 'untrained-message', [name, how, repr(e)])
            R.step()
    for bad in ('cubic', '', None):
        try:
            NearestNeighbor(bad)
            R.fail('bad-type-accepted', bad)
        except ValueError:
            pass
    x, y = data(SETA[:3], [1])
    for f in (lambda: KrigingSurrogate().train(x[:1], y[:1]), lambda: NearestNeighbor('rbf').train(x, y), lambda: NearestNeighbor('rbf', n=4).train(x, y)):
        try:
            f()
            R.fail('too-few-points-accepted', '')
        except ValueError:
            pass
    s = NearestNeighbor('weighted')
    s.train(x, y)
    for how in ('predict', 'linearize'):
        try:
            getattr(s, how)(x[0].copy())
            R.fail('too-few-points-accepted', how)
        except ValueError:
            pass
    R.state('misuse')
