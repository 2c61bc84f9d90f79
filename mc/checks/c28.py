"""C28: derivative checks report the true errors of the supplied derivatives."""
from itertools import product
import io
import warnings
import numpy as np

PID = 'C28'
LEVEL = 'model_checking'
RULE = ('for every kind of component (explicit and implicit, linearize and apply_linear, scalar and array, jacobian as floats, one- and two-dimensional arrays, omitted '
        'entries), wiring (nesting, promotion, src_indices, units, scalers, cycles, differenced groups, unconnected inputs, objects) and check option: every single '
        'entry of every supplied partial is made wrong once, in both directions or only forward or reverse; the reported forward, reverse and approximated '
        'derivatives, norms and error norms are recomputed from the functions, exactly the affected pairs may show an error, the printed reports have to say what the '
        'returned data says, and values, options and later derivatives have to be unchanged; the same for total derivatives over models with solvers and drivers')
ASSUMPTIONS = ['with units or scalers the derivatives may be reported in either of the units, the same one for forward, reverse and approximated ones']
TECH = 'exhaustive enumeration of single-entry derivative corruptions over configurations of the real code, compared with recomputed derivatives'
NOTE = 'single corruptions; residual functions are polynomials of degree three'
CASE_LIMIT = 120

A0 = np.array([[1.5, -0.7, 0.4], [0.3, 2.1, -1.2]])
X0 = {'a': np.array([0.8, -1.3, 2.4]), 'b': 1.7}
DEL = 0.37


# ---------------------------------------------------------------------------
# functions: residual-like functions of named inputs, and their partials

def f_expl(v):
    a, b = v['a'], v['b']
    return {'y': A0.dot(a) + np.array([a[0] * a[1], b * b]) + b * np.array([0.5, 1.1]), 'z': np.array([b * a.sum() + a[0] ** 2 + 0.3 * a[2] ** 3])}


def j_expl(v):
    a, b = v['a'], float(v['b'])
    ya = A0.copy()
    ya[0, 0] += a[1]
    ya[0, 1] += a[0]
    return {('y', 'a'): ya, ('y', 'b'): np.array([[0.5], [1.1 + 2 * b]]), ('z', 'a'): np.array([[b + 2 * a[0], b, b + 0.9 * a[2] ** 2]]),
            ('z', 'b'): np.array([[a.sum()]])}


def f_scal(v):
    b, c = v['b'], v['c']
    return {'y': b * b * c + 2 * c, 'z': 3 * b - c * c}


def j_scal(v):
    b, c = float(v['b']), float(v['c'])
    return {('y', 'b'): np.array([[2 * b * c]]), ('y', 'c'): np.array([[b * b + 2]]), ('z', 'b'): np.array([[3.]]), ('z', 'c'): np.array([[-2 * c]])}


def f_impl(v):
    a, b, x = v['a'], v['b'], v['x']
    return {'x': np.array([3 * x[0] + 0.2 * x[1] ** 2 - a[0] * b, 2.5 * x[1] + 0.1 * x[0] * a[1] - a[2]]), 'w': np.array([x[0] * x[1] + b * a[0]])}


def j_impl(v):
    a, b, x = v['a'], float(v['b']), v['x']
    return {('x', 'a'): np.array([[-b, 0, 0], [0, 0.1 * x[0], -1.]]), ('x', 'b'): np.array([[-a[0]], [0.]]), ('x', 'x'): np.array([[3, 0.4 * x[1]], [0.1 * a[1], 2.5]]),
            ('w', 'a'): np.array([[b, 0, 0]]), ('w', 'b'): np.array([[a[0]]]), ('w', 'x'): np.array([[x[1], x[0]]])}


FUNCS = {'expl': (f_expl, j_expl, ('a', 'b'), ()), 'scal': (f_scal, j_scal, ('b', 'c'), ()), 'impl': (f_impl, j_impl, ('a', 'b'), ('x',))}
SHAPE = {'a': (3,), 'b': (), 'c': (), 'x': (2,)}
START = dict(X0, c=0.6)
# component kinds: function, how derivatives are supplied
KINDS = {'lin': ('expl', 'dict'), 'mf': ('expl', 'apply'), 'alloc': ('expl', 'alloc'), 'flt': ('scal', 'float'), 'one': ('scal', '1d'), 'scmf': ('scal', 'apply'),
         'imp': ('impl', 'dict'), 'impmf': ('impl', 'apply')}
_cls = {}


def comp_class():
    if 'c' in _cls:
        return _cls['c']
    from openmdao.api import Component

    class Base(Component):
        def __init__(self, kind, bad=None, units=None, scal=None, pbo=False, metas=None):
            super(Base, self).__init__()
            fn, self.how = KINDS[kind]
            self.f, self.j, self.ins, self.sts = FUNCS[fn]
            self.bad, self.pbo = bad, pbo
            metas = metas or {}
            for p in self.ins:
                kw = dict(metas.get(p, {}))
                if units and p in units:
                    kw['units'] = units[p]
                self.add_param(p, val=np.zeros(SHAPE[p]) if SHAPE[p] else 0.0, **kw)
            if pbo:
                self.add_param('name', val='nobody', pass_by_obj=True)
                self.add_output('label', val='', pass_by_obj=True)
            ex = self.f({q: np.ones(SHAPE[q]) if SHAPE[q] else 1.0 for q in self.ins + self.sts})
            self.outs = [u for u in ex if u not in self.sts]
            for u in ex:
                kw = dict((scal or {}).get(u, {}))
                val = np.zeros(np.shape(ex[u])) if np.size(ex[u]) > 1 else 0.0
                if u not in self.sts:
                    kw.pop('resid_scaler', None)
                if u in self.sts:
                    self.add_state(u, val=np.array([0.3, 0.4]), **kw)
                else:
                    self.add_output(u, val=val, **kw)

        def _vals(self, params, unknowns):
            v = {p: params[p] for p in self.ins}
            for s in self.sts:
                v[s] = unknowns[s]
            return v

        def solve_nonlinear(self, params, unknowns, resids):
            if self.sts:
                x = np.array(unknowns['x'], dtype=complex if np.iscomplexobj(unknowns['x']) else float)
                v = self._vals(params, unknowns)
                for _ in range(30):
                    v['x'] = x
                    d = np.linalg.solve(self.j(v)[('x', 'x')], self.f(v)['x'])
                    x = x - d
                    if abs(d).max() < 1e-15:
                        break
                unknowns['x'] = x
            r = self.f(self._vals(params, unknowns))
            for u in self.outs:
                unknowns[u] = r[u] if np.size(r[u]) > 1 else np.atleast_1d(r[u])[0]
            if self.pbo:
                unknowns['label'] = params['name'] + '!'

        def supplied(self, v, mode):
            J = self.j(v)
            if self.bad:
                u, p, i, k, where = self.bad
                if where == 'drop':
                    if i is None:
                        J[u, p] = J[u, p] * 0.
                    else:
                        J[u, p][i, k] = 0.
                elif where in ('both', mode):
                    J[u, p][i, k] += DEL
            return J

    class Linearized(Base):
        def linearize(self, params, unknowns, resids):
            J = self.supplied(self._vals(params, unknowns), 'both')
            if self.how == 'float':
                return {k: float(v[0, 0]) for k, v in J.items()}
            if self.how == '1d':
                return {k: v[0] for k, v in J.items()}
            if self.how == 'alloc':
                jac = self.alloc_jacobian()
                for k in J:
                    jac[k][:] = J[k]
                return jac
            if self.bad and self.bad[4] == 'drop' and self.bad[2] is None:
                del J[self.bad[0], self.bad[1]]
            return J

    class Applied(Base):
        def apply_linear(self, params, unknowns, dparams, dunknowns, dresids, mode):
            J = self.supplied(self._vals(params, unknowns), mode)
            for (u, p), M in J.items():
                vec = dunknowns if p in self.sts else dparams
                if p not in vec or u not in dresids:
                    continue
                if mode == 'fwd':
                    add = M.dot(np.atleast_1d(vec[p]).ravel())
                    dresids[u] += add if np.ndim(dresids[u]) else float(add[0])
                else:
                    add = M.T.dot(np.atleast_1d(dresids[u]).ravel())
                    vec[p] += add if np.ndim(vec[p]) else float(add[0])

    class ImpRes(object):
        def apply_nonlinear(self, params, unknowns, resids):
            r = self.f(self._vals(params, unknowns))
            resids['x'] = r['x']
            resids['w'] = r['w'][0] - unknowns['w']

        def solve_linear(self, dumat, drmat, vois, mode=None):
            for voi in vois:
                v = self._vals(self.params, self.unknowns)
                M = self.supplied(v, mode)
                S, W = M['x', 'x'], M['w', 'x']
                if mode == 'fwd':
                    dumat[voi].vec[:2] = np.linalg.solve(S, drmat[voi].vec[:2])
                    dumat[voi].vec[2:] = -(drmat[voi].vec[2:] - W.dot(dumat[voi].vec[:2]))
                else:
                    rw = -dumat[voi].vec[2:]
                    drmat[voi].vec[2:] = rw
                    drmat[voi].vec[:2] = np.linalg.solve(S.T, dumat[voi].vec[:2] - W.T.dot(rw))

    class LinImp(ImpRes, Linearized):
        pass

    class AppImp(ImpRes, Applied):
        pass

    def make(kind, *args, **kw):
        fn, how = KINDS[kind]
        cls = {('impl', True): AppImp, ('impl', False): LinImp}.get((fn, how == 'apply'))
        if fn != 'impl':
            cls = Applied if how == 'apply' else Linearized
        return cls(kind, *args, **kw)
    _cls['c'] = make
    return make


# ---------------------------------------------------------------------------
WIRES = ('plain', 'promo', 'nested', 'src', 'dup', 'units', 'temp', 'scaled', 'inner', 'chain', 'fdgroup', 'unconn', 'pbo', 'parderivs', 'fresh', 'late',
         'meta')
OPTS = {
    'def': {}, 'back': dict(form='backward'), 'cent': dict(form='central'), 'big': dict(form='forward', step=1e-2), 'bigback': dict(form='backward', step=1e-2),
    'bigcent': dict(form='central', step=1e-2), 'rel': dict(form='forward', step=1e-2, calc='relative'), 'relcent': dict(form='central', step=1e-2, calc='relative'),
    'cs': dict(type='cs'), 'csstep': dict(type='cs', step=1e-12),
}


def build(kind, wire, bad, setopt=None, comptype=None):
    """returns problem, path of the component under test, {param: (factor of the reported derivative, alternatives)}"""
    from openmdao.api import Problem, Group, IndepVarComp, ExecComp, ScipyGMRES, NLGaussSeidel, DirectSolver
    make = comp_class()
    fn = KINDS[kind][0]
    ins = FUNCS[fn][2]
    units = {'units': {ins[0]: 'cm'}, 'temp': {ins[1]: 'degF'}}.get(wire)
    scal = {'scaled': {u: dict(resid_scaler=2.5 if i else 0.2, scaler=4. if i else 0.5) for i, u in enumerate(['y', 'z', 'x', 'w'])}}.get(wire)
    metas = {ins[0]: dict(step_size=1e-3), ins[1]: dict(form='central', step_size=1e-2)} if wire == 'meta' else None
    comp = make(kind, bad, units, scal, wire == 'pbo', metas)
    prob = Problem(root=Group())
    root = prob.root
    src = {}
    for p in ins:
        val = START[p]
        if p == ins[0] and wire in ('src', 'dup') and p == 'a':
            val = np.array([5., 0.8, -1.3, 7., 2.4]) if wire == 'src' else np.array([9., 0.8, 9., -1.3, 9.])
        kw = {}
        if wire == 'units' and p == ins[0]:
            val, kw = val / 100., dict(units='m')
        if wire == 'temp' and p == ins[1]:
            val, kw = (val - 32.) / 1.8, dict(units='degC')
        src[p] = (val, kw)
    path = 'comp'
    if wire == 'promo':
        root.add('p', IndepVarComp([(p, src[p][0], src[p][1]) for p in ins]), promotes=['*'])
        root.add('comp', comp, promotes=['*'])
    else:
        root.add('p', IndepVarComp([(p, src[p][0], src[p][1]) for p in ins]))
        if wire in ('nested', 'fdgroup', 'inner'):
            g = root.add('g', Group())
            if wire == 'nested':
                h = g.add('h', Group(), promotes=[ins[0]])
                h.add('comp', comp, promotes=[ins[0]])
                path = 'g.h.comp'
                names = {ins[0]: 'g.' + ins[0], ins[1]: 'g.h.comp.' + ins[1]}
            else:
                g.add('comp', comp)
                path = 'g.comp'
                names = {p: 'g.comp.' + p for p in ins}
                if wire == 'fdgroup':
                    g.deriv_options['type'] = 'fd'
                else:
                    g.add('d', ExecComp('q=2*r'))
                    g.connect('comp.%s' % ('w' if fn == 'impl' else 'z'), 'd.r')
                    g.nl_solver, g.ln_solver = NLGaussSeidel(), DirectSolver()
        elif wire == 'chain':
            u = 'w' if fn == 'impl' else 'z'
            root.add('comp', comp)
            root.add('next', make('scmf'))
            root.add('prev', make('flt'))
            root.connect('comp.' + u, 'next.b')
            root.connect('p.b', ['prev.b', 'prev.c', 'next.c'])
            names = {p: 'comp.' + p for p in ins}
        else:
            root.add('comp', comp)
            names = {p: 'comp.' + p for p in ins}
        for p in ins:
            if wire == 'unconn' and p == ins[1]:
                continue
            si = None
            if wire == 'src' and p == 'a':
                si = [1, 2, 4]
            if wire == 'dup' and p == 'a':
                si = [1, 3, 3]
            root.connect('p.' + p, names[p], src_indices=si)
        if wire == 'pbo':
            root.add('n', IndepVarComp('name', 'me', pass_by_obj=True))
            root.connect('n.name', 'comp.name')
    if fn == 'impl' and wire != 'inner':
        root.ln_solver = ScipyGMRES()
    if wire == 'parderivs':
        from openmdao.api import LinearGaussSeidel
        if fn != 'impl':
            root.ln_solver = LinearGaussSeidel()
            root.ln_solver.options['single_voi_relevance_reduction'] = True
        prob.driver.add_desvar('p.' + ins[0])
        prob.driver.add_desvar('p.' + ins[1])
        prob.driver.parallel_derivs(['p.' + ins[0], 'p.' + ins[1]])
        prob.driver.add_objective('comp.' + ('w' if fn == 'impl' else 'z'))
    if comptype:
        for k, v in comptype.items():
            comp.deriv_options[k] = v
    for k, v in (setopt or {}).items():
        comp.deriv_options['check_' + {'step': 'step_size', 'calc': 'step_calc'}.get(k, k)] = v
    prob.setup(check=False)
    if wire == 'unconn':
        comp.params[ins[1]] = START[ins[1]]
    if wire not in ('fresh',):
        prob.run()
    if wire == 'late':
        prob['p.' + ins[0]] = prob['p.' + ins[0]] * 1.1
        prob.run()
    return prob, path, comp


def numeric(f, v, p, shape, how, units=None):
    """the approximation that the options describe, in units of the component (scale = component per reported unit)"""
    form, step, calc, typ = how
    base = np.atleast_1d(np.array(v[p], dtype=float)).ravel()
    cols = {}
    fac, off = units or (1., 0.)

    def at(k, d):
        x = base.astype(complex if np.iscomplexobj(d) else float)
        x[k] = x[k] + d * fac
        w = dict(v)
        w[p] = x.reshape(shape) if shape else x[0]
        return {u: np.atleast_1d(r).ravel() for u, r in f(w).items()}
    for k in range(base.size):
        if typ == 'cs':
            r = at(k, 1j * step)
            col = {u: r[u].imag / step for u in r}
        else:
            mine = (base[k] - off) / fac if units else base[k]
            h = step * max(1., abs(mine)) if calc == 'relative' else step
            zero, up, down = at(k, 0.), at(k, h), at(k, -h)
            col = {u: {'forward': (up[u] - zero[u]) / h, 'backward': (zero[u] - down[u]) / h, 'central': (up[u] - down[u]) / (2 * h)}[form] for u in up}
        for u in col:
            cols.setdefault(u, []).append(col[u])
    return {u: np.array(c).T for u, c in cols.items()}


def mode_of(opt, base=None):
    d = dict(form='forward', step=1e-6, calc='absolute', type='fd')
    d.update(base or {})
    d.update(opt or {})
    return (d['form'], d['step'], d['calc'], d['type'])


def state_of(prob):
    from .c13 import values
    out = {}
    for s in prob.root.subsystems(recurse=True, include_self=True):
        for k, v in s.deriv_options.items():
            out['opt', s.pathname, k] = v
        out['locked', s.pathname] = s.deriv_options.locked
    for n in prob.root.unknowns:
        out['u', n] = np.array(prob.root.unknowns[n]).copy()
    for n in prob.root.params:
        out['p', n] = np.array(prob.root.params[n]).copy()
    out['iter'] = prob.driver.iter_count
    return out


def same_state(a, b):
    return [k for k in a if not np.array_equal(a[k], b.get(k))]


def printed(text, data, comp):
    """what the verbose report says, per pair"""
    out, cur = {}, None
    for line in text.splitlines():
        s = line.strip()
        if ' wrt ' in s and s.startswith(comp + ':'):
            parts = s[len(comp) + 1:].split(' wrt ')
            cur = out[parts[0].strip().strip("'"), parts[1].strip().strip("'")] = {}
        elif cur is not None and ' : ' in s.replace('):', ') :'):
            k, v = s.replace('):', ') :').rsplit(' : ', 1)
            cur[k.strip()] = v.strip()
    return out


def close(a, b, tol):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1. + np.abs(b))))


def num(x):
    return float('nan') if x is None else x


def judge(R, key, pair, d, fwd, rev, fd, tol, fdtol, facs, fd2=None, supplied=True):
    """the entry of one pair against the recomputed derivatives"""
    info = {'pair': list(pair)}
    if supplied:
        ok = [f for f in facs if close(d['J_fwd'], fwd * f, tol)]
        if not R.check(ok, key + ':J_fwd', dict(info, got=np.asarray(d['J_fwd']).tolist(), want=fwd.tolist())):
            return False
        if not R.check(any(close(d['J_rev'], rev * f, tol) for f in ok), key + ':J_rev', dict(info, got=np.asarray(d['J_rev']).tolist(), want=(rev * ok[0]).tolist())):
            return False
        if not R.check(any(any(close(d['J_fd'], w * f, fdtol) for w in fd) for f in ok), key + ':J_fd',
                       dict(info, got=np.asarray(d['J_fd']).tolist(), want=[w.tolist() for w in fd])):
            return False
        jf, jr = np.asarray(d['J_fwd']), np.asarray(d['J_rev'])
    else:
        if not R.check(any(close(d['J_fd'], w * f, fdtol) for w in fd for f in facs), key + ':J_fd',
                       dict(info, got=np.asarray(d['J_fd']).tolist(), want=[w.tolist() for w in fd])):
            return False
        R.check(any(close(d['J_fd2'], w * f, fdtol) for w in fd2 for f in facs), key + ':J_fd2', dict(info, got=np.asarray(d['J_fd2']).tolist(), want=[w.tolist() for w in fd2]))
        jf = jr = None
    nf = np.asarray(d['J_fd'])
    mags = [None if jf is None else np.linalg.norm(jf), None if jr is None else np.linalg.norm(jr), np.linalg.norm(nf)]
    errs = [np.linalg.norm(jf - nf), np.linalg.norm(jr - nf), np.linalg.norm(jf - jr)] if supplied else [np.linalg.norm(np.asarray(d['J_fd2']) - nf)]
    R.check(len(d['magnitude']) == 3 and all((a is None) == (b is None) and (a is None or abs(a - b) <= 1e-12 * (1 + b)) for a, b in zip(d['magnitude'], mags)),
            key + ':magnitude', dict(info, got=repr(d['magnitude']), want=repr(mags)))
    R.check(len(d['abs error']) == len(errs) and all(abs(a - b) <= 1e-12 * (1 + b) for a, b in zip(d['abs error'], errs)), key + ':abs',
            dict(info, got=repr(d['abs error']), want=repr(errs)))
    if mags[2]:
        R.check(len(d['rel error']) == len(errs) and all(abs(a - b / mags[2]) <= 1e-12 * (1 + b / mags[2]) for a, b in zip(d['rel error'], errs)), key + ':rel',
                dict(info, got=repr(d['rel error']), want=repr([e / mags[2] for e in errs])))
    else:
        R.check(len(d['rel error']) and all(np.isnan(e) for e in d['rel error']), key + ':rel-of-nothing', dict(info, got=repr(d['rel error'])))
    return True


def report(R, key, text, data, cname, supplied=True):
    """the verbose report says what the data says, and stars exactly the errors"""
    got = printed(text, data, cname)
    if not R.check(set(got) == set(data), key + ':printed-pairs', {'got': [list(k) for k in got], 'want': [list(k) for k in data]}):
        return
    for pair, d in data.items():
        g = got[pair]
        if supplied:
            want = [('Forward Magnitude', d['magnitude'][0]), ('Reverse Magnitude', d['magnitude'][1]), ('Fd Magnitude', d['magnitude'][2]),
                    ('Absolute Error (Jfor - Jfd)', d['abs error'][0]), ('Absolute Error (Jrev - Jfd)', d['abs error'][1]), ('Absolute Error (Jfor - Jrev)', d['abs error'][2]),
                    ('Relative Error (Jfor - Jfd)', d['rel error'][0]), ('Relative Error (Jrev - Jfd)', d['rel error'][1]), ('Relative Error (Jfor - Jrev)', d['rel error'][2])]
        else:
            want = [('Fd Magnitude', d['magnitude'][2]), ('Fd2 Magnitude', np.linalg.norm(d['J_fd2'])), ('Absolute Error (Jfd2 - Jfd)', d['abs error'][0]),
                    ('Relative Error (Jfd2 - Jfd)', d['rel error'][0])]
        for label, val in want:
            s = g.get(label, 'missing')
            star = s.endswith('*')
            try:
                shown = float(s.replace('*', '').split('(')[0])
            except ValueError:
                R.fail(key + ':printed', {'pair': list(pair), 'label': label, 'line': s})
                continue
            R.check((np.isnan(shown) and np.isnan(val)) or abs(shown - val) <= 1e-5 * abs(val), key + ':printed', {'pair': list(pair), 'label': label, 'line': s, 'value': val})
            if 'Error' in label:
                R.check(star == (not np.isnan(val) and val >= 1e-6), key + ':starred', {'pair': list(pair), 'label': label, 'line': s, 'value': val})


def compact(R, key, text, data, supplied=True):
    """the compact report: one line per pair, and each column holds what its heading says"""
    heads, rows = None, {}
    for line in text.splitlines():
        if ' wrt ' not in line or '|' not in line:
            continue
        cells = [c.strip() for c in line.split('|')]
        pair = tuple(c.strip().strip("'") for c in cells[0].split(' wrt '))
        if pair[0] == '<unknown>':
            heads = cells[1:]
        else:
            rows[pair] = [float(c) for c in cells[1:]]
    if not R.check(set(rows) == set(data), key + ':compact-pairs', {'got': [list(k) for k in rows], 'want': [list(k) for k in data]}):
        return
    for pair, row in rows.items():
        d = data[pair]
        if supplied:
            m = d['magnitude']
            want = {'fwd mag.': m[0], 'rev mag.': m[1], 'check mag.': m[2], 'a(fwd-chk)': d['abs error'][0], 'a(rev-chk)': d['abs error'][1], 'a(fwd-rev)': d['abs error'][2],
                    'r(fwd-chk)': d['rel error'][0], 'r(rev-chk)': d['rel error'][1], 'r(fwd-rev)': d['rel error'][2]}
        else:
            own, chk = np.linalg.norm(d['J_fd2']), d['magnitude'][2]
            want = {'fd mag.': own, 'cs mag.': own, 'check mag.': chk}
            for h in ('fd', 'cs'):
                want['ab(chk - %s)' % h] = d['abs error'][0]
                want['rel(chk - %s)' % h] = d['rel error'][0]
        for h, v in zip(heads, row):
            w = want.get(h)
            if not R.check(w is not None, key + ':compact-heading', {'heading': h}):
                continue
            R.check((np.isnan(v) and np.isnan(w)) or abs(v - w) <= 1e-4 * abs(w), key + ':compact-value', {'pair': list(pair), 'heading': h, 'shown': v, 'value': w})


def corruptions(kind, full):
    fn, how = KINDS[kind]
    j = FUNCS[fn][1](dict(START, x=np.array([.3, .4])))
    yield None
    for (u, p), M in sorted(j.items()):
        for i in range(M.shape[0]):
            for k in range(M.shape[1]):
                for where in (('both', 'fwd', 'rev') if how == 'apply' else ('both',)):
                    yield (u, p, i, k, where)
                if full and M[i, k] and how not in ('float', '1d'):
                    yield (u, p, i, k, 'drop')
        if full and how not in ('apply',):
            yield (u, p, None, None, 'drop')


def cases(tier):
    for kind in KINDS:
        for wire in WIRES:
            if wire in ('src', 'dup') and KINDS[kind][0] == 'scal':
                continue
            for bad in corruptions(kind, wire == 'plain' or tier == 'thorough'):
                yield {'k': 'part', 'kind': kind, 'wire': wire, 'bad': bad, 'opt': 'def', 'by': 'comp'}
        for opt in OPTS:
            for by in ('comp', 'global', 'mixed'):
                for wire in (WIRES if tier == 'thorough' else ('plain', 'nested', 'units', 'src', 'meta')):
                    if wire in ('src', 'dup') and KINDS[kind][0] == 'scal':
                        continue
                    for n, bad in enumerate(corruptions(kind, False)):
                        if wire != 'plain' and n % 5 and tier != 'thorough':
                            continue
                        yield {'k': 'part', 'kind': kind, 'wire': wire, 'bad': bad, 'opt': opt, 'by': by}
        # approximated components compared with another approximation
        for own, opt, by, wire in product(OPTS, OPTS, ('comp', 'global'), ('plain', 'nested', 'units', 'scaled') if tier != 'thorough' else WIRES):
            if wire in ('src', 'dup') and KINDS[kind][0] == 'scal' or wire in ('fdgroup', 'parderivs'):
                continue
            yield {'k': 'two', 'kind': kind, 'wire': wire, 'own': own, 'opt': opt, 'by': by}
        for sel in range(8):
            yield {'k': 'comps', 'kind': kind, 'sel': sel}
    for c in total_cases(tier):
        yield c


def reported_units(wire, fn):
    ins = FUNCS[fn][2]
    if wire == 'units':
        return ins[0], 100., 0.
    if wire == 'temp':
        return ins[1], 1.8, 32.
    return None, 1., 0.


def compvals(prob, comp):
    v = {p: (np.array(comp.params[p]).copy() if np.ndim(comp.params[p]) else float(comp.params[p])) for p in comp.ins}
    for s in comp.sts:
        v[s] = np.array(comp.unknowns[s]).copy()
    return v


def part(case, R):
    kind, wire, opt = case['kind'], case['wire'], OPTS[case['opt']]
    bad = tuple(case['bad']) if case['bad'] else None
    fn, how = KINDS[kind]
    by = case['by']
    glob, setopt = None, opt
    if by == 'global':
        glob, setopt = opt, None
    elif by == 'mixed':
        glob, setopt = opt, dict(form='backward', step=1e-4, calc='relative')
    key = 'part:%s' % wire
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        prob, path, comp = build(kind, wire, bad, setopt)
        before = state_of(prob)
        gl = None if glob is None else {'check_' + {'step': 'step_size', 'calc': 'step_calc'}.get(k, k): v for k, v in glob.items()}
        t1, t2 = io.StringIO(), io.StringIO()
        data = prob.check_partial_derivatives(out_stream=t1, global_options=gl)
        after = state_of(prob)
        if wire != 'fresh':
            R.check(not same_state(before, after), key + ':changed', {'what': repr(same_state(before, after))})
        if not R.check(path in data, key + ':missing-component', {'got': list(data)}):
            return
        d = data[path]
        R.trace()
        v = compvals(prob, comp)
        f = comp.f
        J, Jf, Jr = comp.j(v), comp.supplied(v, 'fwd'), comp.supplied(v, 'rev')
        if how != 'apply':
            Jf = Jr = comp.supplied(v, 'both')
        chk = mode_of(glob, mode_of_dict(setopt))
        pairs = set(J)
        if wire == 'unconn':
            miss = FUNCS[fn][2][1]
            pairs = {q for q in pairs if q[1] != miss}
            d = {q: w for q, w in d.items() if q[1] != miss}
        R.check(set(d) == pairs, key + ':pairs', {'got': sorted(map(list, d)), 'want': sorted(map(list, pairs))})
        up, fac, off = reported_units(wire, fn)
        for pair in sorted(pairs & set(d)):
            u, p = pair
            sh = SHAPE[p]
            chk_p = chk
            if wire == 'meta':
                # options of the variable come first
                m = mode_of_dict(None)
                if p == FUNCS[fn][2][0]:
                    chk_p = (chk[0], 1e-3, chk[2], chk[3])
                elif p == FUNCS[fn][2][1]:
                    chk_p = ('central', 1e-2, chk[2], chk[3])
            fds = [numeric(f, v, p, sh, chk_p)[u]]
            if p == up:
                fds.append(numeric(f, v, p, sh, chk_p, (fac, off))[u] / fac)
            facs = [1., fac] if p == up else [1.]
            h = chk_p[1]
            fdtol = 1e-13 / h * 20 + 1e-9 if chk_p[3] == 'fd' else 1e-10
            if wire == 'scaled':
                # in whatever scale: consistent with each other
                facs = scale_candidates(d[pair]['J_fwd'], Jf[pair])
                fdtol *= 10
            if h < 1e-4 and chk_p[3] == 'fd':
                fdtol = 2e-7
            ok = judge(R, key, pair, d[pair], Jf[pair], Jr[pair], fds, 1e-10, fdtol, facs)
            # exactly the affected pairs show an error
            hit = bad is not None and (u, p) == (bad[0], bad[1])
            if ok and chk_p[1] <= 1e-5:
                e = d[pair]['abs error']
                scale = max(1., np.abs(facs).max())
                if not hit:
                    R.check(max(e) < 3e-3 * scale, key + ':false-error', {'pair': list(pair), 'abs': repr(e)})
                else:
                    df = np.linalg.norm(Jf[pair] - J[pair])
                    dr = np.linalg.norm(Jr[pair] - J[pair])
                    lo = min(abs(np.array(facs)))
                    R.check(e[0] >= 0.9 * df * lo and e[1] >= 0.9 * dr * lo or max(df, dr) < 1e-6, key + ':missed', {'pair': list(pair), 'abs': repr(e)})
        for other in data:
            if other != path:
                for q, w in data[other].items():
                    R.check(max(w['abs error']) < 1e-3, key + ':other-component', {'comp': other, 'pair': list(q), 'abs': repr(w['abs error'])})
        R.check('p' not in data and 'n' not in data, key + ':indep', {'got': list(data)})
        R.state((kind, wire, case['opt'], by, case['bad']))
        report(R, key, section(t1.getvalue(), path), data[path], path)
        again = prob.check_partial_derivatives(out_stream=t2, compact_print=True, global_options=gl)
        compact(R, key, section(t2.getvalue(), path), again[path])
        R.check(same_data(data, again), key + ':second-check', {})
        quiet = prob.check_partial_derivatives(out_stream=None, global_options=gl)
        R.check(same_data(data, quiet), key + ':quiet-check', {})
        R.step(3)


def scale_candidates(got, want):
    got, want = np.asarray(got), np.asarray(want)
    k = np.argmax(np.abs(want))
    return [float(got.flat[k] / want.flat[k])] if want.flat[k] else [1.]


def mode_of_dict(setopt):
    d = dict(form='forward', step=1e-6, calc='absolute', type='fd')
    d.update(setopt or {})
    return d


def section(text, path):
    """the part of the report about one component"""
    out, on = [], False
    for line in text.splitlines():
        if line.startswith("Component: '"):
            on = line.startswith("Component: '%s'" % path)
        if on:
            out.append(line)
    return '\n'.join(out)


def same_data(a, b):
    if set(a) != set(b):
        return False
    for c in a:
        if set(a[c]) != set(b[c]):
            return False
        for q in a[c]:
            if set(a[c][q]) != set(b[c][q]):
                return False
            for k in a[c][q]:
                x, y = a[c][q][k], b[c][q][k]
                if not np.allclose(np.array([num(e) for e in x] if isinstance(x, tuple) else x, dtype=float), np.array([num(e) for e in y] if isinstance(y, tuple) else y, dtype=float),
                                   rtol=1e-10, atol=1e-12, equal_nan=True):
                    return False
    return True


def two(case, R):
    kind, wire = case['kind'], case['wire']
    own, opt = OPTS[case['own']], OPTS[case['opt']]
    fn = KINDS[kind][0]
    key = 'two:%s:%s' % (wire, case['by'])
    ct = {'type': own.get('type', 'fd')}
    for k, n in (('form', 'form'), ('step', 'step_size'), ('calc', 'step_calc')):
        if k in own:
            ct[n] = own[k]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        prob, path, comp = build(kind, wire, ('y', 'b', 0, 0, 'both') if fn != 'impl' else ('x', 'b', 0, 0, 'both'), opt if case['by'] == 'comp' else None, ct)
        gl = {'check_' + {'step': 'step_size', 'calc': 'step_calc'}.get(k, k): v for k, v in opt.items()} if case['by'] == 'global' else None
        before = state_of(prob)
        t1, t2 = io.StringIO(), io.StringIO()
        data = prob.check_partial_derivatives(out_stream=t1, global_options=gl)
        if wire != 'fresh':
            R.check(not same_state(before, state_of(prob)), key + ':changed', {'what': repr(same_state(before, state_of(prob)))})
        R.trace()
        tiny = dict(step=1e-30)
        mine = mode_of(own, tiny if own.get('type') == 'cs' else None)
        chk = mode_of(opt, tiny if opt.get('type') == 'cs' and case['by'] == 'comp' else None)
        R.state((kind, wire, case['own'], case['opt'], case['by']))
        if mine == chk:
            R.check(path not in data, key + ':same', {'got': list(data)})
            return
        if not R.check(path in data, key + ':missing-component', {'got': list(data)}):
            return
        d = data[path]
        v = compvals(prob, comp)
        J = comp.j(v)
        pairs = set(J)
        if wire == 'unconn':
            miss = FUNCS[fn][2][1]
            pairs = {q for q in pairs if q[1] != miss}
            d = {q: w for q, w in d.items() if q[1] != miss}
        R.check(set(d) == pairs, key + ':pairs', {'got': sorted(map(list, d)), 'want': sorted(map(list, pairs))})
        up, fac, off = reported_units(wire, fn)
        for pair in sorted(pairs & set(d)):
            u, p = pair

            def approx(how):
                if wire == 'meta' and p == FUNCS[fn][2][0]:
                    how = (how[0], 1e-3, how[2], how[3])
                elif wire == 'meta' and p == FUNCS[fn][2][1]:
                    how = ('central', 1e-2, how[2], how[3])
                out = [numeric(comp.f, v, p, SHAPE[p], how)[u]]
                if p == up:
                    out.append(numeric(comp.f, v, p, SHAPE[p], how, (fac, off))[u] / fac)
                return out
            facs = [1., fac] if p == up else [1.]
            if wire == 'scaled':
                facs = scale_candidates(d[pair]['J_fd'], approx(chk)[0])
            judge(R, key, pair, d[pair], None, None, approx(chk), 1e-10, 2e-7, facs, approx(mine), supplied=False)
        report(R, key, section(t1.getvalue(), path), data[path], path, supplied=False)
        again = prob.check_partial_derivatives(out_stream=t2, compact_print=True, global_options=gl)
        compact(R, key, section(t2.getvalue(), path), again[path], supplied=False)
        R.check(same_data(data, again), key + ':second-check', {})
        R.step(2)


def comps(case, R):
    """the selection of components"""
    names = ['comp', 'next', 'prev']
    sel = [n for i, n in enumerate(names) if case['sel'] >> i & 1]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        prob, path, comp = build(case['kind'], 'chain', None)
        full = prob.check_partial_derivatives(out_stream=None)
        R.check(set(full) == set(names), 'comps:all', {'got': list(full)})
        data = prob.check_partial_derivatives(out_stream=None, comps=sel)
        R.check(set(data) == set(sel), 'comps:selected', {'got': list(data), 'want': sel})
        R.check(same_data(data, {n: full[n] for n in sel if n in full}), 'comps:data', {})
        R.state((case['kind'], case['sel']))
        try:
            prob.check_partial_derivatives(out_stream=None, comps=sel + ['nobody'])
            R.fail('comps:unknown', {})
        except RuntimeError as err:
            R.check('nobody' in str(err), 'comps:unknown-named', {'msg': str(err)})
        R.step(3)


# ---------------------------------------------------------------------------
# total derivatives

# inputs: source of each component input; outputs by component
TOTALS = {
    'chain': (['p'], {'c1': ('lin', {'a': 'p.a', 'b': 'p.b'}), 'c2': ('flt', {'b': 'c1.z', 'c': 'p.b'})}),
    'applied': (['p'], {'c1': ('mf', {'a': 'p.a', 'b': 'p.b'}), 'c2': ('scmf', {'b': 'c1.z', 'c': 'p.b'})}),
    'diamond': (['p'], {'c1': ('flt', {'b': 'p.b', 'c': 'p.c'}), 'c2': ('one', {'b': 'c1.y', 'c': 'p.c'}), 'c3': ('scmf', {'b': 'c1.z', 'c': 'c2.y'})}),
    'state': (['p'], {'c1': ('imp', {'a': 'p.a', 'b': 'p.b'}), 'c2': ('flt', {'b': 'c1.w', 'c': 'p.b'})}),
    'statemf': (['p'], {'c1': ('impmf', {'a': 'p.a', 'b': 'p.b'}), 'c2': ('scmf', {'b': 'c1.w', 'c': 'p.b'})}),
}
LNS = ('gs', 'gmres', 'direct', 'dense', 'rel', 'relfwd', 'relrev')
DRV = ('none', 'dv', 'idx', 'scaled', 'dvonly', 'objonly')
TOPT = ('def', 'cent', 'big', 'bigback', 'rel')


def total_cases(tier):
    for m, (_, comps_) in TOTALS.items():
        kinds = [(c, k) for c, (k, _) in comps_.items()]
        for ln, drv in product(LNS, DRV):
            if ln.startswith('rel') and drv in ('none', 'dvonly', 'objonly') or m.startswith('state') and ln in ('gs', 'rel', 'relfwd', 'relrev', 'dense'):
                continue
            if ln == 'dense' and any(KINDS[k][1] == 'apply' for c, k in kinds):
                continue
            for opt in (TOPT if drv in ('none', 'idx') and ln in ('gs', 'gmres') or tier == 'thorough' else ('def',)):
                for c, kind in kinds:
                    for n, bad in enumerate(corruptions(kind, False)):
                        if bad is None and c != kinds[0][0]:
                            continue
                        if bad and bad[4] in ('fwd', 'rev') and ln.startswith('rel'):
                            continue
                        if tier != 'thorough' and (ln not in ('gs', 'gmres') or opt != 'def') and n % 4:
                            continue
                        yield {'k': 'total', 'm': m, 'ln': ln, 'drv': drv, 'opt': opt, 'comp': c, 'bad': bad, 'nest': (n % 3)}


def order(m):
    return list(TOTALS[m][1])


def total(case, R):
    from openmdao.api import Problem, Group, IndepVarComp, LinearGaussSeidel, ScipyGMRES, DirectSolver, ScipyOptimizer
    make = comp_class()
    m, bad = case['m'], (tuple(case['bad']) if case['bad'] else None)
    wiring = TOTALS[m][1]
    key = 'total:%s:%s' % (m, case['ln'])
    sources = sorted({s for _, w in wiring.values() for s in w.values() if s.startswith('p.')})
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        prob = Problem(root=Group())
        root = prob.root
        root.add('p', IndepVarComp([(s[2:], START[s[2:]]) for s in sources]))
        objs = {}
        nest = case['nest'] and case['drv'] != 'none'
        holder = root.add('g', Group()) if nest else root
        where = 'g.' if nest else ''
        for c, (kind, w) in wiring.items():
            objs[c] = holder.add(c, make(kind, bad if c == case['comp'] else None))
        for c, (kind, w) in wiring.items():
            for p, s in w.items():
                root.connect(s if s.startswith('p.') else where + s, '%s%s.%s' % (where, c, p))
        if m.startswith('state'):
            sol = {'gmres': ScipyGMRES, 'direct': DirectSolver}[case['ln']]
            if nest:
                holder.ln_solver = sol()
            root.ln_solver = sol()
        elif case['ln'] == 'gs' or case['ln'].startswith('rel'):
            root.ln_solver = LinearGaussSeidel()
            if case['ln'].startswith('rel'):
                root.ln_solver.options['single_voi_relevance_reduction'] = True
                root.ln_solver.options['mode'] = {'rel': 'auto', 'relfwd': 'fwd', 'relrev': 'rev'}[case['ln']]
                if nest:
                    holder.ln_solver.options['mode'] = root.ln_solver.options['mode']
        elif case['ln'] == 'gmres':
            root.ln_solver = ScipyGMRES()
        else:
            root.ln_solver = DirectSolver()
            if case['ln'] == 'dense':
                root.ln_solver.options['jacobian_method'] = 'assemble'
        for k in ('atol', 'rtol'):
            for g in (root, holder):
                if isinstance(g.ln_solver, ScipyGMRES) and k in g.ln_solver.options:
                    g.ln_solver.options[k] = 1e-13
        opt = OPTS[case['opt']]
        for k, v in opt.items():
            root.deriv_options['check_' + {'step': 'step_size', 'calc': 'step_calc'}.get(k, k)] = v
        last = order(m)[-1]
        first = order(m)[0]
        dvs, fns = {}, {}
        if case['drv'] in ('dv', 'idx', 'scaled', 'dvonly'):
            kw = dict(scaler=3., adder=1.) if case['drv'] == 'scaled' else {}
            for s in sources:
                if case['drv'] == 'idx' and s == 'p.a':
                    prob.driver.add_desvar(s, indices=[2, 0])
                    dvs[s] = [2, 0]
                else:
                    prob.driver.add_desvar(s, **kw)
                    dvs[s] = None
        if case['drv'] in ('dv', 'idx', 'scaled', 'objonly'):
            kw = dict(scaler=0.2, adder=-1.) if case['drv'] == 'scaled' else {}
            prob.driver.add_objective('%s%s.y' % (where, last), **kw)
            fns['%s%s.y' % (where, last)] = None
            arr = {'lin': 'y', 'mf': 'y', 'imp': 'x', 'impmf': 'x'}.get(wiring[first][0], 'z')
            n = '%s%s.%s' % (where, first, arr)
            if case['drv'] == 'idx' and arr != 'z':
                prob.driver.add_constraint(n, lower=0., indices=[1])
                fns[n] = [1]
            else:
                prob.driver.add_constraint(n, lower=0., **kw)
                fns[n] = None
        prob.setup(check=False)
        prob.run()
        before = state_of(prob)
        t1 = io.StringIO()
        data = prob.check_total_derivatives(out_stream=t1)
        after = state_of(prob)
        bad_keys = [k for k in same_state(before, after) if not (isinstance(k, tuple) and k[0] in 'up' or k == 'iter')]
        far = [k for k in before if isinstance(k, tuple) and k[0] == 'p' and not np.allclose(before[k], after[k], rtol=1e-12, atol=1e-12)]
        R.check(not far, key + ':inputs', {'what': repr(far)})
        R.check(not bad_keys, key + ':changed', {'what': repr(bad_keys)})
        near = [k for k in before if isinstance(k, tuple) and k[0] == 'u' and not np.allclose(before[k], after[k], rtol=1e-12, atol=1e-12)]
        R.check(not near, key + ':values', {'what': repr(near)})
        R.trace()
        R.state((m, case['ln'], case['drv'], case['opt'], case['comp'], case['bad'], case['nest']))
        # reference
        ref = Reference(wiring, sources)
        v0 = {s: np.array(prob[s]).copy() if np.ndim(prob[s]) else float(prob[s]) for s in sources}
        want_src = dvs or {s: None for s in sources}
        outs = ref.run(v0)
        names = {where + o: o for o in outs}
        want_fn = fns or {n: None for n in names}
        true = ref.totals(v0, None, None, 'fwd')
        jf = ref.totals(v0, case['comp'], bad, 'fwd')
        jr = ref.totals(v0, case['comp'], bad, 'rev')
        how = mode_of(opt)
        pairs = {(n, s) for n in want_fn for s in want_src}
        got = {q: d for q, d in data.items() if q in pairs}
        R.check(set(got) == pairs and (not dvs or not fns or set(data) == pairs), key + ':pairs', {'got': sorted(map(list, data)), 'want': sorted(map(list, pairs))})
        rel = case['ln'].startswith('rel')
        for (n, s), d in sorted(got.items()):
            o = names[n]
            cut = lambda M: M[np.ix_(want_fn[n] if want_fn[n] is not None else range(M.shape[0]), want_src[s] if want_src[s] is not None else range(M.shape[1]))]
            F, V, T = cut(jf[o, s]), cut(jr[o, s]), cut(true[o, s])
            fd = cut(ref.approx(v0, s, how)[o])
            if rel:
                one = 'J_fwd' if 'J_fwd' in d else 'J_rev'
                R.check(('J_fwd' in d) != ('J_rev' in d), key + ':one-direction', {'got': list(d)})
                W = F if one == 'J_fwd' else V
                R.check(close(d[one], W, 1e-8), key + ':' + one, {'pair': [n, s], 'got': np.asarray(d[one]).tolist(), 'want': W.tolist()})
                R.check(close(d['J_fd'], fd, 2e-6), key + ':J_fd', {'pair': [n, s], 'got': np.asarray(d['J_fd']).tolist(), 'want': fd.tolist()})
                e = np.linalg.norm(np.asarray(d[one]) - np.asarray(d['J_fd']))
                R.check(abs(d['abs error'][0] - e) <= 1e-12 * (1 + e), key + ':abs', {'got': repr(d['abs error']), 'want': e})
                mag = np.linalg.norm(d['J_fd'])
                if mag:
                    R.check(abs(d['rel error'][0] - e / mag) <= 1e-12 * (1 + e / mag), key + ':rel', {'got': repr(d['rel error'])})
                ok = True
            else:
                ok = judge(R, key, (n, s), d, F, V, [fd], 1e-8, 2e-6, [1.])
            if ok and how[1] < 1e-5:
                off = [np.linalg.norm(F - T), np.linalg.norm(V - T)]
                e = d['abs error']
                if max(off) < 1e-9:
                    R.check(max(e) < 3e-3, key + ':false-error', {'pair': [n, s], 'abs': repr(e)})
                elif not rel:
                    R.check(e[0] > 0.9 * off[0] - 1e-3 and e[1] > 0.9 * off[1] - 1e-3, key + ':missed', {'pair': [n, s], 'abs': repr(e), 'off': off})
        if not rel:
            report(R, key, t1.getvalue(), data, 'root')
        quiet = prob.check_total_derivatives(out_stream=None)
        R.check(close_data(data, quiet), key + ':second-check', {})
        R.step(2)


def close_data(a, b):
    return set(a) == set(b) and all(np.allclose(a[q]['J_fd'], b[q]['J_fd'], rtol=1e-6, atol=1e-7) and
                                    all(np.allclose(a[q][k], b[q][k], rtol=1e-9, atol=1e-9) for k in ('J_fwd', 'J_rev') if k in a[q]) for q in a)


class Reference(object):
    """values, totals and differences of a wiring in feed-forward order"""

    def __init__(self, wiring, sources):
        self.w, self.sources = wiring, sources

    def run(self, v):
        vals = dict(v)
        for c, (kind, w) in self.w.items():
            f, j, ins, sts = FUNCS[KINDS[kind][0]]
            a = {p: (np.atleast_1d(vals[w[p]])[0] if not SHAPE[p] else vals[w[p]]) for p in ins}
            if sts:
                x = np.array([0.3, 0.4])
                for _ in range(50):
                    a['x'] = x
                    d = np.linalg.solve(j(a)['x', 'x'], f(a)['x'])
                    x = x - d
                    if abs(d).max() < 1e-16:
                        break
                a['x'] = x
                vals[c + '.x'] = x
            r = f(a)
            for u in r:
                if u not in sts:
                    vals[c + '.' + u] = r[u]
        return {k: w for k, w in vals.items() if k not in v}

    def totals(self, v, comp, bad, mode):
        """feed-forward accumulation with the supplied partials"""
        vals = dict(v)
        vals.update(self.run(v))
        tot = {}
        for s in self.sources:
            n = np.size(v[s])
            d = {t: (np.eye(n) if t == s else np.zeros((np.size(v[t]), n))) for t in self.sources}
            for c, (kind, w) in self.w.items():
                f, j, ins, sts = FUNCS[KINDS[kind][0]]
                a = {p: (float(np.atleast_1d(vals[w[p]])[0]) if not SHAPE[p] else np.asarray(vals[w[p]])) for p in ins}
                if sts:
                    a['x'] = vals[c + '.x']
                J = j(a)
                if bad and c == comp and bad[4] in ('both', mode):
                    J[bad[0], bad[1]][bad[2], bad[3]] += DEL
                if sts:
                    rhs = sum(J['x', p].dot(d[w[p]]) for p in ins)
                    d[c + '.x'] = -np.linalg.solve(J['x', 'x'], rhs)
                for u in {k[0] for k in J} - set(sts):
                    d[c + '.' + u] = sum(J[u, p].dot(d[w[p]]) for p in ins)
                    if sts:
                        d[c + '.' + u] = d[c + '.' + u] + J[u, 'x'].dot(d[c + '.x'])
            for o, M in d.items():
                tot[o, s] = M
        return tot

    def approx(self, v, s, how):
        form, step, calc, _ = how
        base = np.atleast_1d(np.array(v[s], dtype=float))
        cols = {}

        def at(k, h):
            x = base.copy()
            x[k] += h
            w = dict(v)
            w[s] = x if np.ndim(v[s]) else float(x[0])
            return {o: np.atleast_1d(r).ravel() for o, r in self.run(w).items()}
        zero = at(0, 0.)
        for k in range(base.size):
            h = step * max(1., abs(base[k])) if calc == 'relative' else step
            up, down = at(k, h), at(k, -h)
            for o in up:
                cols.setdefault(o, []).append({'forward': (up[o] - zero[o]) / h, 'backward': (zero[o] - down[o]) / h, 'central': (up[o] - down[o]) / (2 * h)}[form])
        return {o: np.array(c).T for o, c in cols.items()}


def run(case, R):
    {'part': part, 'two': two, 'comps': comps, 'total': total}[case['k']](case, R)
