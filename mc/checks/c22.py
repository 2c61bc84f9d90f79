"""C22: a nested problem behaves like the same model inlined."""
from itertools import product, combinations
import contextlib
import copy
import io
import warnings
import numpy as np
from mc import models

PID = 'C22'
LEVEL = 'model_checking'
RULE = ('exhaustive enumeration of small inner models, choices of exposed inputs and outputs, layouts, solvers and derivative modes, and of all '
        'operation sequences (move, run, forward/reverse/approximated totals, partial check, setup) up to a depth: outputs and total derivatives '
        'of the real nested problem are compared with the reference semantics of the inlined model after every step')
ASSUMPTIONS = ['complex step through a nested problem, nested optimisers and exposing one name both as input and as output are left out']
NOTE = 'tolerance 1e-8 (1e-4 for approximated derivatives)'

# inner models: comps, connections among them, inner independent variables
INNER = {
    'one': ({'a': (['u'], ['y'])}, [], []),
    'chain': ({'a': (['u'], ['y']), 'b': (['v', 'w'], ['y'])}, [['a.y', 'b.v']], []),
    'indep': ({'a': (['u'], ['y']), 'b': (['v', 'w'], ['y'])}, [['a.y', 'b.v'], ['q.y', 'a.u']], ['q.y']),
    'shared': ({'a': (['u'], ['y']), 'b': (['v', 'w'], ['y', 'z'])}, [['q.y', 'a.u'], ['q.y', 'b.v'], ['a.y', 'b.w']], ['q.y']),
    'twoind': ({'a': (['u', 't'], ['y']), 'b': (['v', 'w'], ['y'])}, [['q.y', 'a.u'], ['r.y', 'b.w'], ['a.y', 'b.v']], ['q.y', 'r.y']),
    'cycle': ({'a': (['u', 't'], ['y']), 'b': (['v'], ['y'])}, [['a.y', 'b.v'], ['b.y', 'a.t']], []),
    'imp': ({'a': (['u'], ['y']), 's': (['v'], ['y']), 'b': (['v', 'w'], ['y'])}, [['a.y', 's.v'], ['s.y', 'b.v']], []),
    'free': ({'a': (['u'], ['y']), 'b': (['v', 'w'], ['y'])}, [], []),
}
SHAPES = {'s': [], 'v': [2], 'm': [2, 2]}


def subsets(xs, lo=0):
    return [list(c) for n in range(lo, len(xs) + 1) for c in combinations(xs, n)]


def candidates(kind):
    comps, conns, inds = INNER[kind]
    tgt = [t for _, t in conns]
    return (['%s.%s' % (c, i) for c in sorted(comps) for i in comps[c][0] if '%s.%s' % (c, i) not in tgt] + inds,
            ['%s.%s' % (c, o) for c in sorted(comps) for o in comps[c][1]])


def cases(tier):
    q = tier == 'quick'
    out = []
    for kind in sorted(INNER):
        ps, us = candidates(kind)
        solvers = SOLV[kind] if kind in SOLV else ['']
        for p in subsets(ps):
            for u in subsets(us, 1):
                if q and len(ps) > 2 and (len(p) + len(u)) % 2 and 0 < len(p) < len(ps):
                    continue
                for shape in ('s', 'v') if q else ('s', 'v', 'm'):
                    for k, (layout, outer) in enumerate(product(LAYOUTS, OUTERS)):
                        if q and (k + len(p) + 2 * len(u) + len(shape)) % 5 and not (layout == 'flat' and outer == 'root'):
                            continue
                        for solver in solvers:
                            for imode in (('fwd', 'rev') if p and (not q or outer == 'root') else ('auto',)):
                                out.append(['mix', kind, p, u, shape, layout, outer, solver, imode])
    for kind, p, u in (('chain', ['a.u', 'b.w'], ['b.y']), ('shared', ['q.y'], ['a.y', 'b.z']), ('cycle', ['a.u'], ['a.y', 'b.y']), ('imp', ['a.u', 'b.w'], ['s.y', 'b.y'])):
        for solver in SOLV.get(kind, ['']):
            for first in OPS:
                for outer in ('root', 'loop-gs', 'loop-newton'):
                    if outer != 'root' and kind in ('shared', 'imp') and q:
                        continue
                    out.append(['hist', kind, p, u, solver, outer, [first], 3 if q else 4])
    for kind, p, u in (('chain', ['a.u', 'b.w'], ['b.y']), ('chain', ['a.u'], ['a.y', 'b.y']), ('shared', ['q.y'], ['a.y', 'b.z']), ('cycle', ['a.u'], ['a.y', 'b.y']), ('imp', ['a.u', 'b.w'], ['s.y', 'b.y'])):
        for solver in SOLV.get(kind, ['']):
            for shape in ('s', 'v', 'm'):
                for outer in ('loop-gs', 'loop-newton', 'loop-gs-direct', 'loop-newton-direct'):
                    out.append(['mix', kind, p, u, shape, 'flat', outer, solver, 'auto'])
                for dt in ('fd', 'fd-inner', 'twice'):
                    for layout in LAYOUTS:
                        out.append(['kind', kind, p, u, shape, layout, dt, solver])
    for kind in ('one', 'chain', 'indep', 'shared'):
        for us in product([None, 'm', 'cm', 'inch'], repeat=2):
            out.append(['units', kind, list(us)])
    for idx in ([0], [1, 0], [2, 2], [0, 2, 1]):
        for where in ('outer', 'inner', 'both'):
            out.append(['idx', idx, where])
    for m in MISUSE:
        out.append(['misuse', m])
    out.append(['isolated'])
    for single, mode, depth, dtype, par, side in product((0, 1), ('fwd', 'rev'), (0, 1, 2), ('', 'fd'), ('', 'in', 'out'), (0, 1)):
        if (par == 'in' and mode == 'rev') or (par == 'out' and mode == 'fwd') or (dtype and not depth):
            continue
        out.append(['relevant', single, mode, depth, dtype, par, side])
    for depth, idepth, dtype in product((0, 1, 2), (0, 1, 2), ('', 'fd')):
        if depth or not dtype:
            out.append(['owners', depth, idepth, 0, dtype])
    return out


SOLV = {'cycle': ['gs/gmres', 'gs/direct', 'newton/gmres', 'newton/direct'], 'imp': ['newton/direct', 'run/gs']}
LAYOUTS = ['flat', 'grouped', 'promoted']
OUTERS = ['root', 'group', 'promoted', 'star', 'pre']
OPS = ['move', 'run', 'fwd', 'rev', 'fd', 'check', 'setup']
MISUSE = ['no-param', 'computed', 'connected', 'no-unknown', 'param-as-unknown', 'add_param', 'add_output', 'add_state', 'computed-promoted']


def run(case, R):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
            globals()['run_' + case[0]](case, R)
    R.trace()


# ------------------------------------------------------------------ building
class Nest(object):
    def __init__(self, kind, params, unknowns, shape='s', layout='flat', outer='root', solver='', imode='auto', dt='user', units=None):
        from openmdao.api import Problem, Group, IndepVarComp, SubProblem
        comps, conns, inds = INNER[kind]
        self.kind, self.params, self.unknowns = kind, params, unknowns
        sh = SHAPES[shape]
        self.sh = sh
        loop = outer.startswith('loop')
        sp = {'indeps': {'p': {}}, 'comps': {}, 'conns': [], 'tree': [], '_srcidx': {}, 'units': dict(units or {})}
        weak = .35 if loop or kind == 'cycle' else 1.
        for c, (ins, outs) in comps.items():
            sp['comps'][c] = {'ins': dict((i, sh) for i in ins), 'outs': dict((o, sh) for o in outs), 'scale': weak}
            if c == 's':
                sp['comps'][c].update(kind='imp', self=solver.startswith('run') or loop)
        if outer == 'pre':
            sp['comps']['pre'] = {'ins': {'x': sh}, 'outs': {'y': sh}}
            sp['indeps']['p']['x'] = sh
            sp['conns'].append(['p.x', 'pre.x'])
        feed = {}
        for k, n in enumerate(params):
            if loop and k == len(params) - 1:
                feed[n] = 'post.y'
            elif outer == 'pre' and k == 0:
                feed[n] = 'pre.y'
            else:
                sp['indeps']['p']['x%d' % k] = sh
                feed[n] = 'p.x%d' % k
                if n in sp['units'] and n + '!' in sp['units']:
                    sp['units'][feed[n]] = sp['units'].pop(n + '!')
        if outer == 'pre' and not params:
            pass
        sp['comps']['post'] = {'ins': dict(('i%d' % k, sh) for k in range(len(unknowns))), 'outs': {'y': sh}, 'scale': weak}
        if loop:
            sp['indeps']['p']['z'] = sh
            sp['comps']['post']['ins']['z'] = sh
            sp['conns'].append(['p.z', 'post.z'])
        for k, n in enumerate(unknowns):
            sp['conns'].append([n, 'post.i%d' % k])
        inner = []
        for s, t in conns:
            inner.append([s, t])
            sp['conns'].append([feed.get(s, s), t])
        for n in params:
            if n not in inds:
                sp['conns'].append([feed[n], n])
        for n in inds:
            if n not in params:
                sp['indeps'][n.split('.')[0]] = {n.split('.')[1]: sh}
        if not sp['indeps']['p']:
            sp['indeps']['p']['spare'] = sh
        self.sp = sp
        self.ref = models.Ref(sp)
        self.vals = {}
        self.moves = 0

        # the inner problem
        rn = (lambda c, v: c + '_' + v) if layout == 'promoted' else (lambda c, v: v)
        ip = Problem(root=Group())
        top = ip.root
        if layout == 'grouped':
            top = ip.root.add('h', Group())

        def iname(n):
            c, v = n.split('.')
            return {'flat': n, 'grouped': 'h.' + n, 'promoted': c + '_' + v}[layout]
        lname = lambda n: n.replace('.', '_') if layout == 'promoted' else n
        prom = {'promotes': ['*']} if layout == 'promoted' else {}

        def uarg(n):
            return {'units': sp['units'][n]} if sp['units'].get(n) else {}
        for n in inds:
            c, v = n.split('.')
            top.add(c, IndepVarComp([(rn(c, v), models.start_value(dict(sp, indeps={c: 1}), n, sh), uarg(n))]), **prom)
        for c in sorted(comps):
            cls = models.ImpComp if sp['comps'][c].get('kind') == 'imp' else models.GenComp
            top.add(c, cls(sp, c, sp['comps'][c], rn), **prom)
        for s, t in inner:
            top.connect(lname(s), lname(t))
        if solver:
            nl, ln = solver.split('/')
            top.nl_solver, top.ln_solver = models.NL[nl](), models.LN[ln]()
        ip.root.ln_solver.options['mode'] = imode
        if dt == 'fd-inner':
            ip.root.deriv_options['type'] = 'fd'
            ip.root.deriv_options['form'] = 'central'
            ip.root.deriv_options['step_size'] = 1e-4
        self.inner = ip
        sub = SubProblem(ip, params=[iname(n) for n in params], unknowns=[iname(n) for n in unknowns])
        back = iname
        if dt == 'twice':
            mid = Problem(root=Group())
            mid.root.add('j', sub)
            back = lambda n: 'j.' + iname(n)
            sub = SubProblem(mid, params=[back(n) for n in params], unknowns=[back(n) for n in unknowns])
        if dt == 'fd':
            sub.deriv_options['type'] = 'fd'
            sub.deriv_options['form'] = 'central'
            sub.deriv_options['step_size'] = 1e-4
        self.sub = sub

        # the outer problem
        p = self.p = Problem(root=Group())
        r = p.root
        start = lambda n: models.start_value(sp, n, sh)
        r.add('p', IndepVarComp([(v, start('p.' + v), uarg('p.' + v)) for v in sp['indeps']['p']]))
        if outer == 'pre':
            r.add('pre', models.GenComp(sp, 'pre', sp['comps']['pre'], lambda c, v: v))
            r.connect('p.x', 'pre.x')
        if outer == 'group':
            r.add('k', Group()).add('g', sub)
            self.on = lambda n: 'k.g.' + back(n)
        elif outer == 'promoted':
            r.add('g', sub, promotes=[back(n) for n in params + unknowns])
            self.on = back
        elif outer == 'star':
            r.add('g', sub, promotes=['*'])
            self.on = back
        else:
            r.add('g', sub)
            self.on = lambda n: 'g.' + back(n)
        r.add('post', models.GenComp(sp, 'post', sp['comps']['post'], lambda c, v: v))
        if loop:
            r.connect('p.z', 'post.z')
            kind_ = outer.split('-')
            r.nl_solver = models.NL[kind_[1]]()
            r.ln_solver = models.LN['direct' if len(kind_) > 2 else 'gmres']()
        for n in params:
            r.connect(feed[n], self.on(n))
        for k, n in enumerate(unknowns):
            r.connect(self.on(n), 'post.i%d' % k)
        p.setup(check=False)
        self.of = ['post.y'] + unknowns
        self.wrt = ['p.' + v for v in sp['indeps']['p']]
        self.ran = False

    def name(self, n):
        return n if n.split('.')[0] in ('p', 'post', 'pre') else self.on(n)

    def move(self):
        self.moves += 1
        for k, n in enumerate(self.wrt):
            v = np.array(models.start_value(self.sp, n, self.sh)) + .2 * self.moves + .1 * k * self.moves
            self.p[n] = v if self.sh else float(v)
            self.vals[n] = v
        self.ran = False

    def run(self, R, label):
        try:
            self.p.run()
        except Exception as e:
            R.fail('run:%s' % type(e).__name__, [label, str(e)[:200]])
            return False
        self.u = self.ref.solve(self.vals)
        self.ran, self.fd = True, False
        return self.values(R, label)

    def values(self, R, label):
        ok = True
        for n in self.of:
            v, w = self.p[self.name(n)], self.ref.get(self.u, n)
            ok = R.check(np.shape(v) == tuple(self.sh) and models.relerr(models.flat(v), w) < 1e-8, 'output', [label, n, v, w]) and ok
        R.step()
        return ok

    def derivs(self, R, mode, label, tol=None):
        D = self.ref.totals(self.u)
        self.fd = self.fd or mode == 'fd'      # inputs then stay perturbed: a finding of C13
        try:
            J = self.p.calc_gradient(self.wrt, [self.name(n) for n in self.of], mode=mode, return_format='dict')
        except Exception as e:
            R.fail('derivative:%s' % type(e).__name__, [label, mode, str(e)[:200]])
            return False
        tol = tol or (2e-4 if mode == 'fd' else 1e-7 if all(n in INNER[self.kind][2] for n in self.params) else 1e-4)
        ok = True
        for n in self.of:
            for w in self.wrt:
                if w == 'p.spare':
                    continue
                ok = R.check(models.relerr(J[self.name(n)][w], D[n, w]) < tol, 'derivative', [label, mode, n, w, J[self.name(n)][w], D[n, w]]) and ok
        R.step()
        return ok


# ------------------------------------------------------------------ all models and choices
def run_mix(case, R):
    _, kind, p, u, shape, layout, outer, solver, imode = case
    m = Nest(kind, p, u, shape, layout, outer, solver, imode)
    for k in range(2):
        if not m.run(R, k):
            return
        for mode in ('fwd', 'rev'):
            m.derivs(R, mode, k)
        m.values(R, [k, 'after'])
        R.state([case, k])
        m.move()


def run_kind(case, R):
    _, kind, p, u, shape, layout, dt, solver = case
    m = Nest(kind, p, u, shape, layout, 'root', solver, dt=dt)
    for k in range(3):
        if not m.run(R, k):
            return
        for mode in ('fwd', 'rev') + (('fd',) if dt == 'twice' else ()):
            m.derivs(R, mode, k, 1e-4 if dt == 'twice' else 1e-5)
        m.values(R, [k, 'after'])
        R.state([case, k])
        m.move()


def run_units(case, R):
    _, kind, (u1, u2) = case
    if (u1 is None) != (u2 is None):
        return
    p, u = {'one': (['a.u'], ['a.y']), 'chain': (['a.u', 'b.w'], ['a.y', 'b.y']), 'indep': (['q.y', 'b.w'], ['b.y']), 'shared': (['q.y'], ['a.y', 'b.z'])}[kind]
    for inner in ([None] if u1 is None else ['m', 'cm', 'inch']):
        units = {}
        if u1:
            for n in p:
                units[n] = u2
                units[n + '!'] = u1
            if 'q.y' in p:
                units['a.u'] = inner
                if kind == 'shared':
                    units['b.v'] = inner
        for layout in LAYOUTS:
            for shape in 'sv':
                m = Nest(kind, p, u, shape, layout, 'root', units=units)
                if m.run(R, [inner, layout]):
                    for mode in ('fwd', 'rev', 'fd'):
                        m.derivs(R, mode, [inner, layout])
                R.state([case, inner, layout, shape])


# ------------------------------------------------------------------ all histories
def run_hist(case, R):
    _, kind, p, u, solver, outer, first, depth = case

    def rec(hist):
        if replay(hist) and len(hist) < depth:
            for op in OPS:
                rec(hist + [op])

    def replay(hist):
        m = Nest(kind, p, u, 's', 'flat', outer, solver)
        if not m.run(R, 'first'):
            return False
        for k, op in enumerate(hist):
            last = k == len(hist) - 1
            h = hist[:k + 1]
            if op == 'move':
                m.move()
            elif op == 'setup':
                m.p.setup(check=False)
                m.vals = {}
                m.ran = False
            elif op == 'run':
                if not m.run(R, h):
                    return False
            elif not m.ran:
                return False
            elif op == 'check':
                try:
                    d = m.p.check_partial_derivatives(out_stream=None)
                    if last and not outer.startswith('loop'):
                        for c in d:
                            for key, e in d[c].items():
                                R.check(np.allclose(e['J_fwd'], e['J_fd'], 1e-3, 1e-3) and np.allclose(e['J_rev'], e['J_fd'], 1e-3, 1e-3), 'partials',
                                        [h, c, key, e['J_fwd'], e['J_rev'], e['J_fd']])
                except Exception as e:
                    R.fail('check:%s' % type(e).__name__, [h, str(e)[:200]])
                    return False
            elif not m.derivs(R, op, h, 1e-4 if m.fd else None):
                return False
            if m.ran and last:
                m.values(R, h + ['after'])
        R.state([kind, solver, outer, hist])
        return True
    rec(list(first))


# ------------------------------------------------------------------ source indices
def run_idx(case, R):
    from openmdao.api import Problem, Group, IndepVarComp, SubProblem, ExecComp
    _, idx, where = case
    n = len(idx)
    x = np.array([1.5, 2.5, 4.])
    for mode in ('fwd', 'rev'):
        ip = Problem(root=Group())
        ip.root.add('q', IndepVarComp('y', np.zeros(3) if where != 'outer' else np.zeros(n)))
        ip.root.add('a', ExecComp('y = u**2', u=np.zeros(n), y=np.zeros(n)))
        if where == 'outer':
            ip.root.connect('q.y', 'a.u')
        else:
            ip.root.connect('q.y', 'a.u', src_indices=idx)
        p = Problem(root=Group())
        p.root.add('i', IndepVarComp('x', x.copy()))
        p.root.add('g', SubProblem(ip, params=['q.y'], unknowns=['a.y']))
        perm = [2, 0, 1]
        if where == 'outer':
            p.root.connect('i.x', 'g.q.y', src_indices=idx)
            sel = list(idx)
        elif where == 'inner':
            p.root.connect('i.x', 'g.q.y')
            sel = list(idx)
        else:
            p.root.connect('i.x', 'g.q.y', src_indices=perm)
            sel = [perm[k] for k in idx]
        p.setup(check=False)
        p.run()
        R.check(np.allclose(p['g.a.y'], x[sel] ** 2), 'indices', [case, p['g.a.y'], x[sel] ** 2])
        J = np.zeros((n, 3))
        for k, s in enumerate(sel):
            J[k, s] = 2 * x[s]
        got = p.calc_gradient(['i.x'], ['g.a.y'], mode=mode, return_format='array')
        R.check(np.allclose(got, J), 'indices:derivative', [case, mode, got, J])
        R.state([case, mode])
        R.step()


# ------------------------------------------------------------------ misuse, isolation
def inner_problem():
    from openmdao.api import Problem, Group, IndepVarComp, ExecComp
    ip = Problem(root=Group())
    ip.root.add('q', IndepVarComp('y', 3.))
    ip.root.add('a', ExecComp('y = 2*u + t'))
    ip.root.add('b', ExecComp('y = 3*v*w'))
    ip.root.add('c', ExecComp('zz = 5*xx'), promotes=['zz', 'xx'])
    ip.root.connect('q.y', 'a.u')
    ip.root.connect('a.y', 'b.v')
    return ip


def run_misuse(case, R):
    from openmdao.api import Problem, Group, SubProblem
    kind = case[1]
    bad = {'no-param': ['a.nope', 'nope', 'q.u', ''], 'computed': ['a.y', 'b.y'], 'connected': ['a.u', 'b.v'], 'computed-promoted': ['zz'],
           'no-unknown': ['a.nope', 'nope', 'q.u', ''], 'param-as-unknown': ['b.w', 'a.t', 'a.u', 'xx']}
    if kind.startswith('add'):
        s = SubProblem(inner_problem(), params=['b.w'], unknowns=['b.y'])
        try:
            getattr(s, kind)('x', val=1.)
            R.fail('add-accepted', kind)
        except NotImplementedError:
            pass
        R.state(kind)
        return
    for name in bad[kind]:
        for good in ([], ['b.w'], ['b.w', 'q.y']):
            for at in range(len(good) + 1):
                names = good[:at] + [name] + good[at:]
                kw = {'params': names, 'unknowns': ['b.y']} if 'unknown' not in kind else {'params': good, 'unknowns': ['b.y'][:at] + [name] + ['b.y'][at:]}
                p = Problem(root=Group())
                p.root.add('g', SubProblem(inner_problem(), **kw))
                try:
                    p.setup(check=False)
                    R.fail('misuse-accepted', [kind, kw])
                except Exception as e:
                    R.check(name == '' or name in str(e), 'misuse-message', [kind, name, repr(e)])
                R.state([kind, kw])
                R.step()


def run_isolated(case, R):
    """two nested problems of one kind with different inputs; what is not exposed stays inside"""
    from openmdao.api import Problem, Group, SubProblem, IndepVarComp
    for ps in subsets(['a.t', 'b.w', 'q.y', 'xx']):
        p = Problem(root=Group())
        inn = [inner_problem() for _ in range(2)]
        for k in range(2):
            p.root.add('g%d' % k, SubProblem(inn[k], params=ps, unknowns=['a.y', 'b.y', 'zz']))
        p.setup(check=False)
        defaults = {'a.t': 0., 'b.w': 0., 'q.y': 3., 'xx': 0.}
        vals = [dict(defaults), dict(defaults)]
        for n in ps:
            for k in range(2):
                vals[k][n] = 1.5 + k + .25 * len(n)
                p['g%d.%s' % (k, n)] = vals[k][n]
        p.run()
        for k in range(2):
            v = vals[k]
            a = 2 * v['q.y'] + v['a.t']
            for n, w in (('a.y', a), ('b.y', 3 * a * v['b.w']), ('zz', 5 * v['xx'])):
                R.check(np.allclose(p['g%d.%s' % (k, n)], w), 'isolated', [ps, k, n, p['g%d.%s' % (k, n)], w])
            for n in defaults:
                if n not in ps:
                    for f in (lambda: p['g%d.%s' % (k, n)], lambda: p.__setitem__('g%d.%s' % (k, n), 1.)):
                        try:
                            f()
                            R.fail('hidden-visible', [ps, n])
                        except KeyError:
                            pass
            R.step()
        R.state(ps)


def run_relevant(case, R):
    """driver variables on both sides of a subproblem; everything that looks for the owner of a variable"""
    from openmdao.api import Problem, Group, IndepVarComp, SubProblem, ExecComp
    from openmdao.core.driver import Driver
    _, single, mode, depth, dtype, par, side = case

    class Drv(Driver):
        def run(self, problem):
            self._problem = problem
            super(Drv, self).run(problem)

    ip = Problem(root=Group())
    ip.root.add('ind', IndepVarComp([('x', 1.), ('w', 1.)]))
    ip.root.add('a', ExecComp('y = 3. * x + x * x'))
    ip.root.add('b', ExecComp('y = 2. * x * w'))
    ip.root.connect('ind.x', 'a.x')
    ip.root.connect('a.y', 'b.x')
    ip.root.connect('ind.w', 'b.w')
    prob = Problem(root=Group())
    root = prob.root
    root.add('ind', IndepVarComp([('x', .5), ('w', 2.), ('u', 1.5)]))
    g, pre = root, ''
    for k in range(depth):
        g = g.add('g', Group())
        pre += 'g.'
    g.add('s', SubProblem(ip, ['ind.x', 'ind.w'], ['b.y', 'a.y']))
    g.add('n', ExecComp('y = 5. * x'))
    root.add('e', ExecComp('y = x * x + 4. * z'))
    if side:
        root.add('lone', ExecComp('y = 2. * x'))
        root.connect('ind.u', 'lone.x')
    root.connect('ind.x', pre + 's.ind.x')
    root.connect('ind.w', pre + 's.ind.w')
    root.connect(pre + 's.a.y', pre + 'n.x')
    root.connect(pre + 's.b.y', 'e.x')
    root.connect(pre + 'n.y', 'e.z')
    prob.driver = Drv()
    for v in ('x', 'w'):
        prob.driver.add_desvar('ind.' + v)
    prob.driver.add_objective('e.y')
    prob.driver.add_constraint(pre + 's.b.y', upper=100.)
    if side:
        prob.driver.add_constraint('lone.y', upper=100.)
        prob.driver.add_desvar('ind.u')
    if par == 'in':
        prob.driver.parallel_derivs(['ind.x', 'ind.w'])
    elif par == 'out':
        prob.driver.parallel_derivs(['e.y', pre + 's.b.y'])
    root.ln_solver.options['single_voi_relevance_reduction'] = bool(single)
    root.ln_solver.options['mode'] = mode
    if dtype:
        g.deriv_options['type'] = dtype
    R.step()
    out = io.StringIO()
    try:
        prob.setup(check=False)
        noconn = prob._check_no_connect_comps(out) if hasattr(prob, '_check_no_connect_comps') else []
        R.check(noconn == [], 'relevant:unconnected', (case, noconn))
        prob.run()
        x, w = .5, 2.
        a, b = 3 * x + x * x, 2. * (3 * x + x * x) * w
        da, dbx, dbw = 3. + 2 * x, 2. * (3. + 2 * x) * w, 2. * a
        want = {('e.y', 'ind.x'): 2 * b * dbx + 20. * da, ('e.y', 'ind.w'): 2 * b * dbw, (pre + 's.b.y', 'ind.x'): dbx, (pre + 's.b.y', 'ind.w'): dbw}
        ins, outs = ['ind.x', 'ind.w'], ['e.y', pre + 's.b.y']
        if side:
            want.update({('lone.y', 'ind.u'): 2., ('lone.y', 'ind.x'): 0., ('lone.y', 'ind.w'): 0., ('e.y', 'ind.u'): 0., (pre + 's.b.y', 'ind.u'): 0.})
            ins.append('ind.u')
            outs.append('lone.y')
        R.check(abs(prob['e.y'] - (b * b + 20. * a)) < 1e-10 and prob[pre + 's.b.y'] == b, 'relevant:value', (case, prob['e.y']))
        J = prob.calc_gradient(ins, outs, mode=mode, return_format='dict')
        for (o, i), d in want.items():
            R.check(abs(J[o][i][0, 0] - d) < 1e-4 * (1 + abs(d)), 'relevant:derivative', (case, o, i, J[o][i], d))
        T = prob.check_total_derivatives(out_stream=None)
        for k, d in want.items():
            R.check(abs(T[k]['J_fd'][0, 0] - d) < 1e-3 * (1 + abs(d)) and abs(T[k]['J_' + mode][0, 0] - d) < 1e-4 * (1 + abs(d)), 'relevant:total-check', (case, k, T[k], d))
    except Exception as err:
        R.fail('relevant:error', (case, repr(err)))
    R.state(case)


def run_owners(case, R):
    """no driver variables: all inputs and outputs are found"""
    from openmdao.api import Problem, Group, IndepVarComp, SubProblem, ExecComp
    _, depth, idepth, expose, dtype = case
    ip = Problem(root=Group())
    ip.root.add('ind', IndepVarComp('x', 1.))
    h, ipre = ip.root, ''
    for k in range(idepth):
        h = h.add('h', Group())
        ipre += 'h.'
    h.add('a', ExecComp('y = 3. * x * x'))
    ip.root.connect('ind.x', ipre + 'a.x')
    prob = Problem(root=Group())
    root = prob.root
    root.add('ind', IndepVarComp('x', .5))
    g, pre = root, ''
    for k in range(depth):
        g = g.add('g', Group(), promotes=['*'] if expose and k == 0 else None)
        pre += 'g.' if not (expose and k == 0) else ''
    g.add('s', SubProblem(ip, ['ind.x'], [ipre + 'a.y']))
    root.add('e', ExecComp('y = 2. * x'))
    s = pre + 's.'
    if expose and depth:
        s = 'g.' * depth + 's.'
    root.connect('ind.x', s + 'ind.x')
    root.connect(s + ipre + 'a.y', 'e.x')
    if dtype:
        g.deriv_options['type'] = dtype
    R.step()
    try:
        prob.setup(check=False)
        prob.run()
        T = prob.check_total_derivatives(out_stream=None)
        got = dict((k, T[k]) for k in T)
        for o, d in ((s + ipre + 'a.y', 3.), ('e.y', 6.)):
            k = (o, 'ind.x')
            hit = [q for q in got if q[0].endswith(o.split('.', 1)[1]) or q == k]
            R.check(len(hit) >= 1, 'owners:missing', (case, k, sorted(got)))
            for q in hit:
                for j in ('J_fwd', 'J_rev', 'J_fd'):
                    if got[q][j].shape == (1, 1) and q[0] == o:
                        R.check(abs(got[q][j][0, 0] - d) < 1e-3, 'owners:derivative', (case, q, j, got[q][j], d))
    except Exception as err:
        R.fail('owners:error', (case, repr(err)))
    R.state(case)
