"""C09: Newton and its line search keep every entry inside its declared bounds and leave the others alone."""
from itertools import product
import io
import sys
import warnings
import numpy as np
from mc.models import flat
from mc.checks.c08 import snapper

PID = 'C09'
LEVEL = 'model_checking'
RULE = ('complete product of state shape (scalar, one entry, vector, matrix) x form of the bounds (scalar, array) x kind of bound '
        'of two entries (none, one-sided, around the solution, excluding it below or above) x start of those entries (inside, '
        'on a bound, outside) x over-relaxation x line search x subsystem solves x linear or cubic equations x layout; the '
        'point every solver or line-search step moves to is taken from inside the components and compared, entry by entry, '
        'with the clipped Newton step of a reference; bounds on explicit outputs and on independent variables included.')
ASSUMPTIONS = ['an entry that starts outside its bounds may be put on the bound (the existing tests require it)',
               'steps are compared up to 1e-8 relative, bounds up to 1e-11']
NOTE = 'every step of every run in the bounds is judged; which of the line-search points it is, is left open to the search'

SHAPE = {'s': (), '1': (1,), 'a': (2,), 'm': (2, 2)}
SOL = np.array([1., -1., .5, 2.])
VSOL = 1.5
KINDS = ['-', 'in', 'lo', 'xl', 'xh']       # none, around, lower only, excluded: upper below it / lower above it
STARTS = ['mid', 'lo', 'hi', 'below', 'above']


def bnd(kind, s):
    return {'-': (None, None), 'in': (s - .5, s + .75), 'lo': (s - 1., None), 'up': (None, s + 1.), 'xl': (s - 2., s - .4), 'xh': (s + .4, s + 2.)}[kind]


def start(kind, s, where):
    lo, hi = bnd(kind, s)
    lo = s - 3. if lo is None else lo
    hi = s + 3. if hi is None else hi
    return {'mid': lo + .375 * (hi - lo), 'lo': lo, 'hi': hi, 'below': lo - .5, 'above': hi + .5}[where]


def cases(tier):
    q = tier == 'quick'
    out = []
    LS = [None, (3, .5, .5), (2, .3, .9)]
    n = 0
    for sh in SHAPE:
        multi = sh in 'am'
        for form in ('sc', 'arr', 'list', 'int') if sh in 'a' else (('sc', 'arr') if sh != 's' else ('sc',)):
            kk = list(product(KINDS, KINDS)) if multi and form in ('arr', 'list') else [(k, k) for k in KINDS + ['up']]
            for k0, k1 in kk:
                if form == 'int' and '-' in (k0, k1):
                    continue
                ss = list(product(STARTS, STARTS)) if multi else [(a, a) for a in STARTS]
                for s0, s1 in ss:
                    for kv in ('-', 'in', 'xl') if not multi else ('-', 'xh'):
                        for al in (1., .5, 2.):
                            for ls in LS:
                                if ls and al == .5:
                                    continue
                                for sub in (0, 1):
                                    for fn in ('lin', 'cub'):
                                        n += 1
                                        if q and multi and (n * 7919) % 5:
                                            continue        # quick: one in five of the vector cases, at a fixed stride
                                        out.append(['N', sh, form, k0, k1, s0, s1, kv, 'mid', al, ls, sub, fn, 'flat', '-', '-'])
    # layouts and bounds on the other variables
    for lay in ('flat', 'two', 'sub', 'prom', 'deep'):
        for sh in ('s', 'a', 'm'):
            for k0 in KINDS:
                for kv in KINDS:
                    for sv in ('mid', 'lo', 'above'):
                        for kw in ('-', 'in', 'xl'):
                            for kp in ('-', 'viol') if not q or kw == '-' else ('-',):
                                for al in (1., 2.):
                                    for ls in (None, (3, .5, .5)):
                                        for sub in (0, 1):
                                            n += 1
                                            if q and (n * 7919) % 4:
                                                continue
                                            out.append(['N', sh, 'arr' if sh != 's' else 'sc', k0, 'in', 'mid', 'hi', kv, sv, al, ls, sub, 'cub', lay, kw, kp])
    return out


class Ref(object):
    """equations in (x.., v, w): x and v states, w output"""
    def __init__(self, nx, fn):
        self.nx, self.n = nx, nx + 2
        i = np.arange(nx)
        self.A = np.diag(2. + i) + .3 * np.sin(1. + np.add.outer(2. * i, i)) if nx > 1 else np.array([[2.]])
        self.av = .4 * np.cos(i)
        self.c = .5 * np.ones(nx)
        self.cub = .2 if fn == 'cub' else 0.
        x = SOL[:nx]
        self.b = self.A.dot(x) + self.cub * x ** 3 + self.av * VSOL
        self.d = 3.
        self.e = self.c.dot(x) + self.d * VSOL + self.cub * VSOL ** 3
        self.sol = np.r_[x, VSOL, self.w(x, VSOL)]

    def rx(self, x, v):
        return self.A.dot(x) + self.cub * x ** 3 + self.av * v - self.b

    def rv(self, x, v):
        return self.c.dot(x) + self.d * v + self.cub * v ** 3 - self.e

    def w(self, x, v):
        return x.sum() - 2. * v + self.cub * v ** 2

    def step(self, u):
        nx = self.nx
        x, v, w = u[:nx], u[nx], u[nx + 1]
        r = np.r_[self.rx(x, v), self.rv(x, v), self.w(x, v) - w]
        J = np.zeros((self.n, self.n))
        J[:nx, :nx] = self.A + np.diag(3 * self.cub * x ** 2)
        J[:nx, nx] = self.av
        J[nx, :nx] = self.c
        J[nx, nx] = self.d + 3 * self.cub * v ** 2
        J[nx + 1, :nx] = 1.
        J[nx + 1, nx] = -2. + 2 * self.cub * v
        J[nx + 1, nx + 1] = -1.
        return -np.linalg.solve(J, r)


def build(ref, sh, form, lo, hi, vb, wb, p, sub, lay, log):
    from openmdao.api import Problem, Group, Component, IndepVarComp
    shape = SHAPE[sh]
    nx = ref.nx

    def kw(lo, hi):
        return dict((k, v) for k, v in (('lower', lo), ('upper', hi)) if v is not None)

    class Base(Component):
        outs = ()

        def note(self, which, u):
            if which == bool(sub):
                for n in self.outs:
                    log.setdefault(n, []).append(flat(u[n]).copy())

    def fx(x):
        return np.asarray(x, dtype=float).ravel()

    class X(Base):
        outs = ('x',) if lay != 'flat' else ('x', 'v')

        def __init__(self):
            super(X, self).__init__()
            self.add_param('p', 0.)
            self.add_state('x', 0. if sh == 's' else np.zeros(shape), **kw(lo, hi))
            if lay == 'flat':
                self.add_state('v', 0., **kw(*vb))
            else:
                self.add_param('v', 0.)

        def vv(self, p, u):
            return u['v'] if lay == 'flat' else p['v']

        def solve_nonlinear(self, p, u, r):
            self.note(True, u)

        def apply_nonlinear(self, p, u, r):
            self.note(False, u)
            x, v = fx(u['x']), self.vv(p, u)
            rx = ref.rx(x, v) + 0. * p['p']
            r['x'] = rx.reshape(shape) if sh != 's' else rx[0]
            if lay == 'flat':
                r['v'] = ref.rv(x, v)

        def linearize(self, p, u, r):
            x, v = fx(u['x']), self.vv(p, u)
            J = {('x', 'x'): ref.A + np.diag(3 * ref.cub * x ** 2), ('x', 'v'): ref.av.reshape(nx, 1)}
            if lay == 'flat':
                J['v', 'x'] = ref.c.reshape(1, nx)
                J['v', 'v'] = ref.d + 3 * ref.cub * v ** 2
            return J

    class V(Base):
        outs = ('v',)

        def __init__(self):
            super(V, self).__init__()
            self.add_param('x', 0. if sh == 's' else np.zeros(shape))
            self.add_state('v', 0., **kw(*vb))

        def solve_nonlinear(self, p, u, r):
            self.note(True, u)

        def apply_nonlinear(self, p, u, r):
            self.note(False, u)
            r['v'] = ref.rv(fx(p['x']), u['v'])

        def linearize(self, p, u, r):
            return {('v', 'x'): ref.c.reshape(1, nx), ('v', 'v'): ref.d + 3 * ref.cub * u['v'] ** 2}

    class W(Base):
        outs = ('w',)

        def __init__(self):
            super(W, self).__init__()
            self.add_param('x', 0. if sh == 's' else np.zeros(shape))
            self.add_param('v', 0.)
            self.add_output('w', 0., **kw(*wb))

        def solve_nonlinear(self, p, u, r):
            self.note(True, u)
            u['w'] = ref.w(fx(p['x']), p['v'])

        def apply_nonlinear(self, p, u, r):
            self.note(False, u)
            r['w'] = ref.w(fx(p['x']), p['v']) - u['w']

        def linearize(self, p, u, r):
            return {('w', 'x'): np.ones((1, nx)), ('w', 'v'): -2. + 2 * ref.cub * p['v']}

    prob = Problem(root=Group())
    root = prob.root
    pk = dict(lower=1., upper=2.) if p == 'viol' else {}
    root.add('ind', IndepVarComp('p', 5., **pk), promotes=['*'])
    own = root
    if lay == 'sub':
        own = root.add('g', Group(), promotes=['p'])
    elif lay == 'prom':
        own = root.add('g', Group(), promotes=['*'])
    tgt = own
    if lay == 'deep':
        tgt = own.add('h', Group(), promotes=['*'])
    tgt.add('cx', X(), promotes=['*'])
    if lay != 'flat':
        own.add('cv', V(), promotes=['*'])
    own.add('cw', W(), promotes=['*'])
    return prob, own, 'g.' if lay == 'sub' else ''


def run(case, R):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        run_n(case, R)
    R.state(case)
    R.trace()


def run_n(case, R):
    from openmdao.api import Newton, DirectSolver
    from openmdao.solvers.backtracking import BackTracking
    _, sh, form, k0, k1, s0, s1, kv, sv, al, ls, sub, fn, lay, kw, kp = case
    shape = SHAPE[sh]
    nx = int(np.prod(shape))
    ref = Ref(nx, fn)
    BIG = 1e300
    kinds = [k0, k1, 'in', '-'][:nx]
    starts = [s0, s1, 'mid', 'lo'][:nx]
    if form in ('arr', 'list'):
        lo = np.array([-BIG if b is None else b for b in (bnd(k, s)[0] for k, s in zip(kinds, SOL))])
        hi = np.array([BIG if b is None else b for b in (bnd(k, s)[1] for k, s in zip(kinds, SOL))])
        blo, bhi = lo, hi
        lo, hi = lo.reshape(shape), hi.reshape(shape)
        if all(k == '-' for k in kinds):
            lo = hi = None
        if form == 'list':
            lo, hi = [None if b is None else b.tolist() for b in (lo, hi)]
    else:
        # one value for all entries: that of the first
        lo, hi = bnd(k0, SOL[0])
        if form == 'int':
            lo, hi = [None if b is None else int(round(b)) for b in (lo, hi)]
        blo = np.full(nx, -BIG if lo is None else lo, dtype=float)
        bhi = np.full(nx, BIG if hi is None else hi, dtype=float)
    x0 = np.array([start(k, s, w) for k, s, w in zip(kinds if form in ('arr', 'list') else [k0] * nx,
                                                    SOL if form in ('arr', 'list') else [SOL[0]] * nx, starts)])
    if form == 'int':
        l_, h_ = -2. if lo is None else lo, 4. if hi is None else hi
        x0 = np.array([{'mid': .5 * (l_ + h_), 'lo': l_, 'hi': h_, 'below': l_ - 1, 'above': h_ + 1}[w] for w in starts])
    vb, wb = bnd(kv, VSOL), bnd(kw, ref.sol[-1])
    v0 = start(kv, VSOL, sv)
    log = {}
    prob, own, pre = build(ref, sh, form, lo, hi, vb, wb, kp, sub, lay, log)
    nl = own.nl_solver = Newton()
    own.ln_solver = DirectSolver()
    nl.options['alpha'] = al
    nl.options['maxiter'] = 12 if al != .5 else 40
    nl.options['iprint'] = -1
    nl.options['solve_subsystems'] = bool(sub)
    if ls:
        b = nl.line_search = BackTracking()
        b.options['maxiter'], b.options['rho'], b.options['c'] = ls
        b.options['solve_subsystems'] = bool(sub)
        b.options['iprint'] = -1
    rec = snapper()
    nl.add_recorder(rec)
    prob.setup(check=False)
    prob[pre + 'x'] = x0.reshape(shape) if sh != 's' else x0[0]
    prob[pre + 'v'] = v0
    out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        prob.run()
    finally:
        sys.stdout = out
    R.step()
    if kp == 'viol':
        R.check(prob['p'] == 5., 'independent-variable-moved', str(prob['p']))

    def val(d, n):
        for k in (n, 'g.' + n):
            if k in d:
                return flat(d[k])
        raise KeyError(n)
    E = [np.r_[x0, v0, ref.w(x0, v0)]]
    E += [np.concatenate([val(d, n) for n in 'xvw']) for d in rec.snaps]
    skip = len(log['x']) - len(rec.snaps)
    R.check(skip == 1, 'steps-and-evaluations', '%d %d' % (len(log['x']), len(rec.snaps)))
    L = [np.concatenate([log[n][k] for n in 'xvw']) for k in range(len(log['x']))]
    blo = np.r_[blo, [-BIG if b[0] is None else b[0] for b in (vb, wb)]]
    bhi = np.r_[bhi, [BIG if b[1] is None else b[1] for b in (vb, wb)]]
    slack = lambda b: 1e-11 * (1 + np.abs(b))
    judge(R, ref, E, L, blo, bhi, al, ls, sub, slack)
    sol = ref.sol
    inside = (sol > blo).all() and (sol < bhi).all() and (x0 >= blo[:nx]).all() and (x0 <= bhi[:nx]).all()
    if inside and not judge.stuck and (al != 2. and not ls or ls and ls[2] == .5) and np.isfinite(L[-1]).all():
        R.check(np.abs(np.concatenate([flat(prob[pre + n]) for n in 'xvw']) - sol).max() < 1e-5, 'solution-inside-not-found',
                lambda: '%s solution %s' % (E, sol))
        R.note('converged')


def expected(u, du, a, blo, bhi, slack):
    """clipped step; entries outside their bounds before the step are only required to be inside after it"""
    full = np.clip(u + a * du, blo, bhi)
    return full, (u < blo - slack(blo)) | (u > bhi + slack(bhi))


def judge(R, ref, E, L, blo, bhi, al, ls, sub, slack):
    """every L[k] (k >= 1) must be a Newton or line-search step"""
    judge.stuck = False
    m, rho = (ls[0], ls[1]) if ls else (0, 1.)
    hyp = [None]
    dus = {}

    def attempt(base, j, got):
        if base not in dus:
            dus[base] = ref.step(E[base])
        u, du = E[base], dus[base]
        want, free = expected(u, du, al * rho ** j, blo, bhi, slack)
        tol = 1e-8 * (1 + np.abs(want) + np.abs(du))
        ok = (np.abs(got - want) <= tol) | free
        atb = (np.abs(u - blo) <= slack(blo)) | (np.abs(u - bhi) <= slack(bhi))
        stuck = ~ok & atb & (np.abs(got - u) <= tol)
        return (ok | stuck).all(), stuck.any(), want
    for k in range(1, len(L)):
        got, prev = L[k], E[k - 1]
        R.step()
        new, tried = [], []
        nst = []
        for h in hyp:
            opts = [(k - 1, 0)]
            if h is not None and h[1] < m:
                opts.append((h[0], h[1] + 1))
            for o in opts:
                ok, st, want = attempt(o[0], o[1], got)
                tried.append((o, want))
                if ok and o not in new:
                    new.append(o)
                    nst.append(st)
        # inside the bounds, unless it was outside and did not move
        for i in range(ref.n):
            if got[i] < blo[i] - slack(blo[i]) or got[i] > bhi[i] + slack(bhi[i]):
                same = any(abs(got[i] - E[o[0]][i]) <= 1e-9 * (1 + abs(got[i])) and abs(dus[o[0]][i]) <= 1e-9 for o, _ in tried)
                R.check(same, 'moved-outside-bounds', lambda: 'entry %d at %r, bounds %r %r, step %d' % (i, got[i], blo[i], bhi[i], k))
        if not new:
            R.fail('not-the-bounded-step', 'step %d from %s to %s, possible %s' % (k, prev, got, tried))
            judge.stuck = True
            return
        if all(nst):
            if not judge.stuck:
                R.fail('at-bound-entry-not-moved-inward', 'step %d from %s to %s' % (k, prev, got))
            judge.stuck = True
        hyp = new
