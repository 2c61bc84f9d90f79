"""Model specifications, an independent reference semantics for them (numpy
only), and their construction as OpenMDAO problems.

A spec is a JSON-able dict:
  indeps: {'p': {'x': shape}}                        independent variables
  comps:  {'c': {'ins': {'a': shape}, 'outs': {'y': shape},
                 'kind': 'exp'|'imp', 'deriv': 'jac'|'mf'|'fd'|'cs'}}
  conns:  [[src 'c.y', tgt 'd.a', idx|None], ...]    idx: flat source indices
  units:  {'p.x': 'm', 'd.a': 'cm'}                  optional
  tree:   nested list; a str is a component, ['G', name, children] a group
  style:  'root' | 'lca' | 'prom' | 'list'           how connections are written
  solv:   {group path: {'nl':..., 'ln':...}}
  gfd:    {group path: {'type':..., ...}}            deriv_options of groups
  vals:   {'p.x': nested list}                       overrides of start values
"""
import json
import zlib
import numpy as np

from openmdao.api import (Problem, Group, Component, IndepVarComp, ParallelGroup,
                          NLGaussSeidel, Newton, RunOnce, ScipyGMRES, LinearGaussSeidel,
                          DirectSolver)

UNITS = {  # unit -> (dimension, factor to base, offset)   value_base = (v + off) * fac
    None: (None, 1., 0.), 'm': ('L', 1., 0.), 'cm': ('L', .01, 0.), 'km': ('L', 1000., 0.),
    'ft': ('L', .3048, 0.), 'inch': ('L', .0254, 0.),
    'degK': ('T', 1., 0.), 'degC': ('T', 1., 273.15), 'degF': ('T', 5. / 9., 459.67),
    'degR': ('T', 5. / 9., 0.), 's': ('t', 1., 0.), 'min': ('t', 60., 0.),
}


def conv(u1, u2):
    """(scale, offset) with v2 = scale * v1 + offset."""
    if u1 is None or u2 is None or u1 == u2:
        return 1., 0.
    _, f1, o1 = UNITS[u1]
    _, f2, o2 = UNITS[u2]
    return f1 / f2, o1 * f1 / f2 - o2


def size(shape):
    n = 1
    for s in (shape or []):
        n *= s
    return n


def h(*a):
    return zlib.crc32(json.dumps(a).encode())


_COEF = {}


def coef(shape, lo, hi, *key):
    """Deterministic matrix of multiples of 1/16, no two columns alike."""
    k = (tuple(shape), lo, hi, key)
    if k not in _COEF:
        rs = np.random.RandomState(h(*key) & 0x7fffffff)
        _COEF[k] = rs.randint(int(lo * 16), int(hi * 16) + 1, size=shape) / 16.0
        _COEF[k].setflags(write=False)
    return _COEF[k]


class Func(object):
    """y_k = b_k + sum_i A_ki x_i + q (B_ki x_i)^2 elementwise, flat vectors."""

    def __init__(self, name, ins, outs, scale=1.0, aff=False):
        self.ins, self.outs, self.s = ins, outs, scale
        self.A, self.B, self.b = {}, {}, {}
        for o, so in outs:
            self.b[o] = coef((so,), -1, 1, name, o, 'b') + .5
            for i, si in ins:
                A = np.array(coef((so, si), -1, 1, name, o, i, 'A'))
                A[A == 0] = .3125
                self.A[o, i] = A * scale
                B = np.array(coef((so, si), -.5, .5, name, o, i, 'B'))
                self.B[o, i] = B * (0. if aff else scale)

    def __call__(self, x):
        y = {}
        for o, so in self.outs:
            v = self.b[o] + 0 * sum(np.sum(x[i]) for i, _ in self.ins)
            for i, _ in self.ins:
                v = v + self.A[o, i].dot(x[i]) + .25 * self.B[o, i].dot(x[i]) ** 2
            y[o] = v
        return y

    def jac(self, x):
        J = {}
        for o, so in self.outs:
            for i, _ in self.ins:
                B = self.B[o, i]
                J[o, i] = self.A[o, i] + (.5 * B.dot(x[i]))[:, None] * B
        return J


class GenComp(Component):
    """Explicit component y = f(x)."""

    def __init__(self, sp, cname, cs, rn, log=None):
        super(GenComp, self).__init__()
        self.cname, self.log = cname, log
        self.deriv = cs.get('deriv', 'jac')
        self.rn = rn
        self.ins = [(i, s) for i, s in cs['ins'].items()]
        self.outs = [(o, s) for o, s in cs['outs'].items()]
        self.f = Func(cname, [(i, size(s)) for i, s in self.ins],
                      [(o, size(s)) for o, s in self.outs], cs.get('scale', 1.0),
                      cs.get('aff', False))
        units = sp.get('units', {})
        for i, s in self.ins:
            kw = {}
            if units.get(cname + '.' + i):
                kw['units'] = units[cname + '.' + i]
            idx = sp['_srcidx'].get(cname + '.' + i)
            if idx is not None:
                kw['src_indices'] = idx
            self.add_param(rn(cname, i), val=start_value(sp, cname + '.' + i, s), **kw)
        for o, s in self.outs:
            kw = {}
            if units.get(cname + '.' + o):
                kw['units'] = units[cname + '.' + o]
            b = sp.get('bounds', {}).get(cname + '.' + o)
            if b:
                kw.update(b)
            self._add_out(rn(cname, o), start_value(sp, cname + '.' + o, s), kw)
        if self.deriv in ('fd', 'cs'):
            self.deriv_options['type'] = self.deriv
            if self.deriv == 'fd':
                self.deriv_options['form'] = 'central'
                self.deriv_options['step_size'] = 1e-3
        if self.deriv == 'mf':
            self.apply_linear = self._mf

    def _add_out(self, name, val, kw):
        self.add_output(name, val=val, **kw)

    def _x(self, params):
        return {i: np.array(params[self.rn(self.cname, i)]).ravel() for i, _ in self.ins}

    def _set(self, unknowns, o, s, v):
        n = self.rn(self.cname, o)
        if s:
            unknowns[n] = v.reshape(s)
        else:
            unknowns[n] = v[0]

    def solve_nonlinear(self, params, unknowns, resids):
        if self.log is not None:
            self.log('solve', self.cname, self, params, unknowns)
        y = self.f(self._x(params))
        for o, s in self.outs:
            self._set(unknowns, o, s, y[o])

    def linearize(self, params, unknowns, resids):
        if self.log is not None:
            self.log('lin', self.cname, self, params, unknowns)
        J = self.f.jac(self._x(params))
        self._J = J
        if self.deriv == 'mf':
            return None
        return dict(((self.rn(self.cname, o), self.rn(self.cname, i)), v)
                    for (o, i), v in J.items())

    def _mf(self, params, unknowns, dparams, dunknowns, dresids, mode):
        J = self.f.jac(self._x(params))
        if self.log is not None:
            self.log('apply', self.cname, self, params, unknowns)
        for o, so in self.outs:
            on = self.rn(self.cname, o)
            if on not in dresids:
                continue
            for i, si in self.ins:
                n = self.rn(self.cname, i)
                if n not in dparams:
                    continue
                if mode == 'fwd':
                    d = J[o, i].dot(np.array(dparams[n]).ravel())
                    dresids[on] += d.reshape(so) if so else d[0]
                else:
                    d = J[o, i].T.dot(np.array(dresids[on]).ravel())
                    dparams[n] += d.reshape(si) if si else d[0]


class ImpComp(GenComp):
    """State s with residual  K s + 0.05 s^3 - f(x) = 0  (K diagonally dominant)."""

    def _add_out(self, name, val, kw):
        if self.rscale:
            kw['resid_scaler'] = self.rscale
        self.add_state(name, val=val, **kw)

    def __init__(self, sp, cname, cs, rn, log=None):
        self.rscale = cs.get('rscale')
        super(ImpComp, self).__init__(sp, cname, cs, rn, log)
        self.self_solve = cs.get('self', True)
        self.K = dict((o, stateK(cname, o, size(s))) for o, s in self.outs)
        if self.deriv == 'mf':
            self.apply_linear = self._mf

    def _st(self, unknowns, o):
        return np.array(unknowns[self.rn(self.cname, o)]).ravel()

    def solve_nonlinear(self, params, unknowns, resids):
        if self.log is not None:
            self.log('solve', self.cname, self, params, unknowns)
        if not self.self_solve:
            return
        g = self.f(self._x(params))
        for o, so in self.outs:
            s = self._st(unknowns, o)
            s = solve_state(self.K[o], g[o], s)
            self._set(unknowns, o, so, s)

    def apply_nonlinear(self, params, unknowns, resids):
        if self.log is not None:
            self.log('resid', self.cname, self, params, unknowns)
        g = self.f(self._x(params))
        for o, so in self.outs:
            s = self._st(unknowns, o)
            self._set(resids, o, so, self.K[o].dot(s) + .05 * s ** 3 - g[o])

    def _partials(self, params, unknowns):
        J = {}
        Jx = self.f.jac(self._x(params))
        for (o, i), v in Jx.items():
            J[o, i] = -v
        for o, so in self.outs:
            s = self._st(unknowns, o)
            J[o, o] = self.K[o] + np.diag(.15 * s ** 2)
        return J

    def linearize(self, params, unknowns, resids):
        if self.log is not None:
            self.log('lin', self.cname, self, params, unknowns)
        J = self._partials(params, unknowns)
        self._Js = dict((o, J[o, o]) for o, _ in self.outs)
        if self.deriv == 'mf':
            return None
        return dict(((self.rn(self.cname, o), self.rn(self.cname, i)), v)
                    for (o, i), v in J.items())

    def _mf(self, params, unknowns, dparams, dunknowns, dresids, mode):
        if self.log is not None:
            self.log('apply', self.cname, self, params, unknowns)
        J = self._partials(params, unknowns)
        for (o, i), v in J.items():
            on, n = self.rn(self.cname, o), self.rn(self.cname, i)
            vec = dunknowns if o == i else dparams
            if on not in dresids or n not in vec:
                continue
            so = dict(self.outs)[o]
            si = so if o == i else dict(self.ins)[i]
            if mode == 'fwd':
                d = v.dot(np.array(vec[n]).ravel())
                dresids[on] += d.reshape(so) if so else d[0]
            else:
                d = v.T.dot(np.array(dresids[on]).ravel())
                vec[n] += d.reshape(si) if si else d[0]

    def solve_linear(self, dumat, drmat, vois, mode=None):
        if mode == 'fwd':
            sol, rhs = self.dumat, self.drmat
        else:
            sol, rhs = self.drmat, self.dumat
        for voi in vois:
            for o, so in self.outs:
                n = self.rn(self.cname, o)
                if n not in rhs[voi]:
                    continue
                M = self.K[o] + np.diag(.15 * self._st(self.unknowns, o) ** 2)
                if mode != 'fwd':
                    M = M.T
                d = np.linalg.solve(M, np.array(rhs[voi][n]).ravel())
                sol[voi][n] = d.reshape(so) if so else d[0]


def stateK(cname, o, n):
    return 2.5 * np.eye(n) + .25 * coef((n, n), -1, 1, cname, o, 'K')


def solve_state(K, g, s):
    s = np.array(s)
    for _ in range(60):
        r = K.dot(s) + .05 * s ** 3 - g
        ds = np.linalg.solve(K + np.diag(.15 * s ** 2), -r)
        s = s + ds
        if np.linalg.norm(ds) < 1e-15 * (1 + np.linalg.norm(s)):
            break
    return s


def start_value(sp, name, shape):
    v = sp.get('vals', {}).get(name)
    if v is None:
        if name.split('.')[0] in sp['indeps']:
            v = coef((size(shape),), -1, 1, name, 'v') + .75
        else:
            v = coef((size(shape),), -1, 1, name, 's') * .5 + .25
    v = np.array(v, dtype=float).reshape(shape if shape else ())
    return v if shape else float(v)


# --------------------------------------------------------------- reference

class Ref(object):
    """Reference semantics of a spec."""

    def __init__(self, sp):
        self.sp = sp
        self.src = {}
        for c in sp['conns']:
            self.src[c[1]] = (c[0], c[2] if len(c) > 2 else None)
        self.vars = []      # (name, size) of every unknown
        for p, outs in sp['indeps'].items():
            for o, s in outs.items():
                self.vars.append((p + '.' + o, size(s)))
        for c, cs in sp['comps'].items():
            for o, s in cs['outs'].items():
                self.vars.append((c + '.' + o, size(s)))
        self.off = {}
        n = 0
        for v, s in self.vars:
            self.off[v] = (n, n + s)
            n += s
        self.n = n
        self.f = {}
        for c, cs in sp['comps'].items():
            self.f[c] = Func(c, [(i, size(s)) for i, s in cs['ins'].items()],
                             [(o, size(s)) for o, s in cs['outs'].items()],
                             cs.get('scale', 1.0), cs.get('aff', False))
        self.pvals = {}

    def start(self, vals=None):
        u = np.zeros(self.n)
        for p, outs in self.sp['indeps'].items():
            for o, s in outs.items():
                self._put(u, p + '.' + o, start_value(self.sp, p + '.' + o, s))
        for c, cs in self.sp['comps'].items():
            for o, s in cs['outs'].items():
                self._put(u, c + '.' + o, start_value(self.sp, c + '.' + o, s))
        for k, v in (vals or {}).items():
            self._put(u, k, v)
        return u

    def _put(self, u, name, v):
        a, b = self.off[name]
        u[a:b] = np.array(v, dtype=float).ravel()

    def get(self, u, name):
        a, b = self.off[name]
        return u[a:b]

    def units(self, name):
        return self.sp.get('units', {}).get(name)

    def xin(self, u, c):
        x = {}
        for i, s in self.sp['comps'][c]['ins'].items():
            t = c + '.' + i
            if t in self.src:
                s_, idx = self.src[t]
                v = self.get(u, s_)
                if idx is not None:
                    v = v[np.array(idx, dtype=int)]
                sc, of = conv(self.units(s_), self.units(t))
                x[i] = v * sc + of
            elif t in self.pvals:
                x[i] = np.array(self.pvals[t], dtype=float).ravel()
            else:
                x[i] = np.array(start_value(self.sp, t, s)).ravel()
        return x

    def order(self):
        """Topological order of comps or None if cyclic."""
        deps = dict((c, set()) for c in self.sp['comps'])
        for t, (s, _) in self.src.items():
            sc = s.split('.')[0]
            if sc in deps:
                deps[t.split('.')[0]].add(sc)
        out = []
        while deps:
            r = sorted(c for c in deps if not deps[c])
            if not r:
                return None
            out += r
            for c in r:
                del deps[c]
            for d in deps.values():
                d.difference_update(r)
        return out

    def solve(self, vals=None, u0=None):
        u = self.start(vals) if u0 is None else u0.copy()
        o = self.order()
        if o is not None:
            for c in o:
                self._eval(u, c)
            return u
        for it in range(100):
            r = self.resid(u)
            if np.linalg.norm(r) < 1e-13:
                break
            J = self.dRdu(u)
            u = u + np.linalg.solve(J, -r)
        return u

    def _eval(self, u, c):
        cs = self.sp['comps'][c]
        g = self.f[c](self.xin(u, c))
        for o in cs['outs']:
            n = c + '.' + o
            if cs.get('kind') == 'imp':
                K = stateK(c, o, size(cs['outs'][o]))
                self._put(u, n, solve_state(K, g[o], self.get(u, n)))
            else:
                self._put(u, n, g[o])

    def resid(self, u):
        r = np.zeros(self.n)
        for c, cs in self.sp['comps'].items():
            g = self.f[c](self.xin(u, c))
            for o in cs['outs']:
                n = c + '.' + o
                s = self.get(u, n)
                if cs.get('kind') == 'imp':
                    K = stateK(c, o, size(cs['outs'][o]))
                    v = K.dot(s) + .05 * s ** 3 - g[o]
                else:
                    v = s - g[o]
                a, b = self.off[n]
                r[a:b] = v
        return r

    def dRdu(self, u):
        J = np.eye(self.n)
        for c, cs in self.sp['comps'].items():
            Jx = self.f[c].jac(self.xin(u, c))
            for o in cs['outs']:
                n = c + '.' + o
                a, b = self.off[n]
                if cs.get('kind') == 'imp':
                    K = stateK(c, o, b - a)
                    J[a:b, a:b] = K + np.diag(.15 * u[a:b] ** 2)
                for i in cs['ins']:
                    t = c + '.' + i
                    if t not in self.src:
                        continue
                    s_, idx = self.src[t]
                    sc, _ = conv(self.units(s_), self.units(t))
                    p, q = self.off[s_]
                    cols = np.arange(p, q) if idx is None else p + np.array(idx, dtype=int)
                    for k, col in enumerate(cols):
                        J[a:b, col] -= sc * Jx[o, i][:, k]
        return J

    def totals(self, u):
        """dict (of, wrt) -> matrix, for all unknowns wrt all indeps."""
        M = np.linalg.inv(self.dRdu(u))
        D = {}
        for p, outs in self.sp['indeps'].items():
            for o in outs:
                w = p + '.' + o
                a, b = self.off[w]
                for v, _ in self.vars:
                    c, d = self.off[v]
                    D[v, w] = M[c:d, a:b]
        return D


# ------------------------------------------------------------ construction

LN = {
    'gs1': lambda: LinearGaussSeidel(),
    'gs': lambda: _opts(LinearGaussSeidel(), maxiter=80, atol=1e-12, rtol=1e-12),
    'direct': lambda: DirectSolver(),
    'dirsolve': lambda: _opts(DirectSolver(), solve_method='solve'),
    'asm': lambda: _opts(DirectSolver(), jacobian_method='assemble'),
    'gmres': lambda: _opts(ScipyGMRES(), atol=1e-13),
    'gmres_gs': lambda: _pre(LinearGaussSeidel()),
    'gmres_dir': lambda: _pre(DirectSolver()),
}
NL = {
    'run': lambda: RunOnce(),
    'gs': lambda: _opts(NLGaussSeidel(), maxiter=300, atol=1e-13, rtol=1e-14, utol=1e-15),
    'newton': lambda: _opts(Newton(), maxiter=50, atol=1e-13, rtol=1e-14, utol=1e-15),
}


def _opts(s, **kw):
    for k, v in kw.items():
        s.options[k] = v
    s.options['iprint'] = -1
    return s


def _pre(p):
    s = _opts(ScipyGMRES(), atol=1e-13)
    s.preconditioner = p
    p.options['iprint'] = -1
    return s


class Built(object):
    pass


def paths(sp):
    """comp -> group path tuple."""
    out = {}

    def walk(node, path):
        if isinstance(node, str):
            out[node] = path
        else:
            for ch in node[2]:
                walk(ch, path + (node[1],))
    for ch in sp['tree']:
        walk(ch, ())
    return out


def build(sp, log=None, problem=None, group_cls=Group):
    style = sp.get('style', 'root')
    prom = style in ('prom', 'list')
    mix = style == 'mix'
    promo = set(sp.get('promo', ()))
    where = paths(sp)
    src = {}
    for c in sp['conns']:
        src[c[1]] = c[0]
    sp = dict(sp)
    sp['_srcidx'] = {}
    for c in sp['conns']:
        if len(c) > 2 and c[2] is not None and (prom or sp.get('idx_at') == 'param'):
            sp['_srcidx'][c[1]] = c[2]

    def rn(c, v):
        if mix:
            return c + '_' + v
        if not prom:
            return v
        s = src.get(c + '.' + v)
        if s:
            return s.replace('.', '_')
        return c + '_' + v

    def names(node):
        if isinstance(node, str):
            if node in sp['indeps']:
                return [rn(node, o) for o in sp['indeps'][node]]
            cs = sp['comps'][node]
            return [rn(node, v) for v in list(cs['ins']) + list(cs['outs'])]
        r = []
        for ch in node[2]:
            r += names(ch)
        return r

    b = Built()
    b.comps = {}
    b.groups = {}
    solv = sp.get('solv', {})

    def configure(g, path):
        b.groups[path] = g
        cfg = dict(solv.get('*', {}))
        cfg.update(solv.get(path, {}))
        if cfg.get('ln'):
            g.ln_solver = LN[cfg['ln']]()
            if 'mode' in cfg:
                g.ln_solver.options['mode'] = cfg['mode']
        if cfg.get('nl'):
            g.nl_solver = NL[cfg['nl']]()
        for k, v in sp.get('gfd', {}).get(path, {}).items():
            g.deriv_options[k] = v
        g.ln_solver.options['iprint'] = -1
        g.nl_solver.options['iprint'] = -1

    def make(node, parent, path):
        if isinstance(node, str):
            if node in sp['indeps']:
                outs = []
                for o, s in sp['indeps'][node].items():
                    kw = {}
                    un = sp.get('units', {}).get(node + '.' + o)
                    if un:
                        kw['units'] = un
                    outs.append((rn(node, o), start_value(sp, node + '.' + o, s), kw))
                sub = IndepVarComp(outs)
            else:
                cs = sp['comps'][node]
                cls = ImpComp if cs.get('kind') == 'imp' else GenComp
                sub = cls(sp, node, cs, rn, log)
            b.comps[node] = sub
            name = node
        else:
            sub = group_cls() if node[0] == 'G' else ParallelGroup()
            name = node[1]
            p = path + '.' + name if path else name
            for ch in node[2]:
                make(ch, sub, p)
            configure(sub, p)
        if style == 'prom' or (mix and name in promo):
            parent.add(name, sub, promotes=['*'])
        elif style == 'list':
            parent.add(name, sub, promotes=sorted(set(names(node))))
        else:
            parent.add(name, sub)

    prob = problem or Problem()
    root = prob.root = group_cls()
    for node in sp['tree']:
        make(node, root, '')
    configure(root, '')

    def absn(v, rel=()):
        c, x = v.split('.')
        p = where[c]
        if mix:
            n = rn(c, x)
            for node in (p + (c,))[::-1]:
                if node not in promo:
                    n = node + '.' + n
            return n
        assert p[:len(rel)] == tuple(rel)
        return '.'.join(p[len(rel):] + (c, x))

    if not prom:
        for c in sp['conns']:
            s, t = c[0], c[1]
            idx = c[2] if len(c) > 2 else None
            if sp.get('idx_at') == 'param':
                idx = None
            rel = ()
            if style == 'lca':
                pa, pb = where[s.split('.')[0]], where[t.split('.')[0]]
                k = 0
                while k < min(len(pa), len(pb)) and pa[k] == pb[k]:
                    k += 1
                rel = pa[:k]
            g = b.groups['.'.join(rel)]
            if idx is not None:
                g.connect(absn(s, rel), absn(t, rel), src_indices=idx)
            else:
                g.connect(absn(s, rel), absn(t, rel))

    def u(v):
        c, x = v.split('.')
        return rn(c, x) if prom else absn(v)
    b.u = u
    b.prob = prob
    b.spec = sp
    b.p_abs = lambda v: '.'.join(where[v.split('.')[0]] + (v.split('.')[0], rn(*v.split('.'))))
    return b


def setup(b, **kw):
    b.prob.setup(check=False, **kw)
    return b


def flat(v):
    return np.array(v, dtype=float).ravel()


def relerr(a, e):
    a, e = np.asarray(a), np.asarray(e)
    if a.shape != e.shape:
        return np.inf
    if a.size == 0:
        return 0.
    if not np.all(np.isfinite(a)):
        return np.inf
    return np.max(np.abs(a - e)) / max(1.0, np.max(np.abs(e)))


def set_partitions(items):
    items = list(items)
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    for k in range(2 ** len(rest)):
        blk = [first] + [r for j, r in enumerate(rest) if k >> j & 1]
        left = [r for j, r in enumerate(rest) if not k >> j & 1]
        for p in set_partitions(left):
            yield [blk] + p
