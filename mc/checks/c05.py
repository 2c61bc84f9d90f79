"""C05: asking for fewer derivatives never changes the ones returned."""
from itertools import permutations, product
import numpy as np
from mc.models import build, Ref, flat, relerr, size
from mc.topo import subsets, groups_of

PID = 'C05'
LEVEL = 'model_checking'
RULE = ('complete product: data-flow graphs (with irrelevant branches, cycles, states, multi-output components, '
        'indexed connections) x component trees x linear solvers (with and without single-variable relevance '
        'reduction) x declarations (design variables, objective, constraints, index subsets, parallel '
        'derivative groups) x modes; for each, all ordered requests of up to two outputs by up to two '
        'inputs and the full lists in both orders, dict and array, and all sparsity and inactive-row '
        'arguments on selected models.')
ASSUMPTIONS = ['parallel derivative groups are evaluated in a single process']
NOTE = 'every request in the bounded space is compared with the full Jacobian of the independent reference'
TOL = 1e-8

V = [2]


def _c(ins, outs, **kw):
    d = {'ins': dict((i, V) for i in ins), 'outs': dict((o, V) for o in outs)}
    d.update(kw)
    return d


def G(comps, conns, indeps=('p', 'q')):
    return {'indeps': dict((k, {'x': V}) for k in indeps), 'comps': comps,
            'conns': [list(c) if len(c) == 3 else [c[0], c[1], None] for c in conns]}


GRAPHS = [
    # two separate chains joined at the end
    G({'c1': _c('a', 'y'), 'c2': _c('a', 'y', deriv='mf'), 'c3': _c('ab', 'y')},
      [('p.x', 'c1.a'), ('q.x', 'c2.a'), ('c1.y', 'c3.a'), ('c2.y', 'c3.b')]),
    # two independent branches, nothing in common
    G({'c1': _c('a', 'y', deriv='mf'), 'c2': _c('a', 'y'), 'c3': _c('a', 'y')},
      [('p.x', 'c1.a'), ('c1.y', 'c2.a'), ('q.x', 'c3.a')]),
    # fork, an irrelevant leaf
    G({'c1': _c('ab', 'yz'), 'c2': _c('a', 'y', deriv='mf'), 'c3': _c('a', 'y')},
      [('p.x', 'c1.a'), ('q.x', 'c1.b'), ('c1.y', 'c2.a'), ('c1.z', 'c3.a')]),
    # cycle fed by p, q only downstream
    G({'c1': _c('ab', 'y', scale=.2), 'c2': _c('a', 'y', scale=.2), 'c3': _c('ab', 'y', deriv='mf')},
      [('p.x', 'c1.a'), ('c2.y', 'c1.b'), ('c1.y', 'c2.a'), ('c2.y', 'c3.a'), ('q.x', 'c3.b')]),
    # state in the middle, q feeds the state only
    G({'c1': _c('a', 'y'), 'c2': _c('ab', 'y', kind='imp'), 'c3': _c('ab', 'y', deriv='mf')},
      [('p.x', 'c1.a'), ('c1.y', 'c2.a'), ('q.x', 'c2.b'), ('c2.y', 'c3.a'), ('p.x', 'c3.b')]),
    # state in a cycle; second branch disjoint
    G({'c1': _c('ab', 'y', kind='imp', scale=.3), 'c2': _c('a', 'y', scale=.3, deriv='mf'), 'c3': _c('a', 'y')},
      [('p.x', 'c1.a'), ('c2.y', 'c1.b'), ('c1.y', 'c2.a'), ('q.x', 'c3.a')]),
    # indexed connections: q reaches c3 twice, p once
    G({'c1': _c('a', 'yz'), 'c2': _c('ab', 'y'), 'c3': _c('abc', 'y')},
      [('p.x', 'c1.a', [1, 1]), ('q.x', 'c2.a', [1, 0]), ('c1.z', 'c2.b', [0, 0]), ('c2.y', 'c3.a'),
       ('q.x', 'c3.b'), ('c1.y', 'c3.c', [1, 0])]),
    # three inputs, one of them feeding nothing
    G({'c1': _c('a', 'y'), 'c2': _c('ab', 'y'), 'c3': _c('a', 'y')},
      [('p.x', 'c1.a'), ('c1.y', 'c2.a'), ('q.x', 'c2.b'), ('c1.y', 'c3.a')], ('p', 'q', 'r')),
    # different sizes of path: diamond + skip
    G({'c1': _c('a', 'y', deriv='mf'), 'c2': _c('a', 'y', deriv='fd'), 'c3': _c('abc', 'yz')},
      [('p.x', 'c1.a'), ('p.x', 'c2.a'), ('c1.y', 'c3.a'), ('c2.y', 'c3.b'), ('q.x', 'c3.c')]),
]
GRAPHS[6]['units'] = {'p.x': 'm', 'c1.a': 'cm', 'c2.y': 'degC', 'c3.a': 'degF', 'q.x': 's', 'c3.b': 'min'}
GRAPHS[8]['comps']['c2']['deriv'] = 'jac'

TREES = [['c1', 'c2', 'c3'], [['G', 'g', ['c1', 'c2']], 'c3'], ['c1', ['G', 'g', ['c2', 'c3']]],
         [['G', 'g', ['c1', 'c2', 'c3']]], [['G', 'g', [['G', 'h', ['c1', 'c2']], 'c3']]],
         [['G', 'g', ['c1']], ['G', 'g1', ['c2', 'c3']]], [['G', 'g', ['c1', 'c3']], 'c2'],
         [['G', 'g', ['c1', ['G', 'h', ['c2']], 'c3']]]]

SOLV = ['gs', 'gsr', 'direct', 'gmres', 'gs+direct', 'gsr+gs', 'gmres_gs', 'gsr+gmres']
QSOLV = ['gs', 'gsr', 'direct', 'gmres', 'gsr+gs']

# (design variables, responses, index subsets, parallel groups of desvars / responses)
DECL = [
    ('p', (), 0, 0), ('pq', 'o', 0, 0), ('p', 'oc', 0, 0), ('qp', 'co', 0, 0), ('q', 'o', 1, 0), ('pq', 'oc', 1, 0),
    ('pq', 'oc', 2, 0), ('pq', 'oc', 0, 1), ('qp', 'co', 0, 1), ('pq', 'oc', 1, 1), ('pq', 'oc', 3, 1), ((), 'o', 0, 0),
    ('pq', 'occ', 0, 1), ('p', 'oco', 3, 0),
]


def outs_of(sp):
    return [c + '.' + o for c in sp['comps'] for o in sp['comps'][c]['outs']]


def cases(tier):
    out = []
    for g in range(len(GRAPHS)):
        for t in range(len(TREES)):
            for s in (QSOLV if tier == 'quick' else SOLV):
                for d in range(len(DECL)):
                    for style in ('root', 'prom'):
                        if tier == 'quick' and (g + t + d + len(s)) % 2 != (style == 'prom'):
                            continue
                        for mode in ('fwd', 'rev', 'auto'):
                            if tier == 'quick' and mode == 'auto' and ((g + t + d) % 3 or s in ('direct', 'gmres')):
                                continue
                            if (tier == 'quick' and not DECL[d][3] and not s.startswith('gsr')
                                    and (g + t + d) % 2 != (mode == 'fwd')):
                                continue
                            out.append(['R', g, t, s, d, style, mode])
    # one of the groups is approximated
    n = 0
    for g in range(len(GRAPHS)):
        for t in range(1, len(TREES)):
            for s in ('gs', 'gsr', 'direct', 'asm', 'gmres'):
                for d in (1, 7, 9):
                    for mode in ('fwd', 'rev'):
                        n += 1
                        if tier == 'thorough' or (g + t + len(s) + d) % 3 == (mode == 'fwd'):
                            out.append(['R', g, t, s, d, ('root', 'prom')[n % 2], mode, 'fd'])
    for g in range(len(GRAPHS)):
        for s in ('gs', 'gsr', 'direct'):
            for par in (0, 1):
                out.append(['S', g, s, par])
    return out


def spec(g, t, s, style, approx=False):
    import json
    sp = json.loads(json.dumps(GRAPHS[g]))
    tree = json.loads(json.dumps(TREES[t]))
    ind = sorted(sp['indeps'])
    if t == 3:
        tree[0][2].insert(0, ind[0])
        tree = ind[1:] + tree
    else:
        tree = ind + tree
    sp['tree'] = tree
    sp['style'] = style
    if approx:
        sp['gfd'] = {'g': {'type': 'fd', 'form': 'central', 'step_calc': 'absolute', 'step_size': 1e-4}}
    cyc = Ref(sp).order() is None or any(x.get('kind') == 'imp' for x in sp['comps'].values())
    if s == 'asm':
        # takes no matrix-free components
        for c in sp['comps'].values():
            if c.get('deriv') == 'mf':
                c['deriv'] = 'jac'
    a, _, b = s.partition('+')
    sp['solv'] = {'*': {'nl': 'gs', 'ln': b or 'gs'}, '': {'nl': 'gs', 'ln': 'gs' if a == 'gsr' else a}}
    return sp


class Patch(object):
    """parallel groups are only kept when MPI is present"""
    def __enter__(self):
        from openmdao.core import driver
        self.m, self.old = driver, getattr(driver, 'MPI', None)
        driver.MPI = True

    def __exit__(self, *a):
        self.m.MPI = self.old


IDX = {0: {}, 1: {'d': [1], 'r': [0]}, 2: {'d': [1, 0], 'r': [1, 1]}, 3: {'d': [1], 'r': [1, 0]}}


def declare(b, sp, d):
    dv, rs, ix, par = DECL[d]
    drv = b.prob.driver
    outs = outs_of(sp)
    ov = [outs[-1], outs[0], outs[1]]
    idx = {}
    dn, rn = [], []
    for k, p in enumerate(dv):
        v = p + '.x'
        kw = {}
        if 'd' in IDX[ix]:
            kw['indices'] = idx[v] = IDX[ix]['d']
        drv.add_desvar(b.u(v), lower=-1e6, upper=1e6, **kw)
        dn.append(v)
    for k, r in enumerate(rs):
        v = ov[k]
        kw = {}
        if 'r' in IDX[ix]:
            kw['indices'] = idx[v] = IDX[ix]['r']
        if r == 'o':
            drv.add_objective(b.u(v), **kw)
        else:
            drv.add_constraint(b.u(v), lower=0., **kw)
        rn.append(v)
    if par:
        with Patch():
            if len(dn) > 1:
                drv.parallel_derivs([b.u(v) for v in dn])
            if len(rn) > 1:
                drv.parallel_derivs([b.u(v) for v in rn])
    return idx, dn, rn


def ordered(items, k):
    for n in range(1, k + 1):
        for p in permutations(items, n):
            yield list(p)


def expect(D, idx, o, w):
    # index subsets of responses apply to rows, those of design variables to columns
    J = D[o, w]
    if o in idx and o.endswith(('.y', '.z')):
        J = J[idx[o]]
    if w in idx:
        J = J[:, idx[w]]
    return J


def prepare(g, t, s, d, style, R, mode=None, approx=False):
    sp = spec(g, t, s, style, approx)
    b = build(sp)
    if s.startswith('gsr'):
        b.prob.root.ln_solver.options['single_voi_relevance_reduction'] = True
    if mode and mode != 'auto':
        b.prob.root.ln_solver.options['mode'] = mode
    idx, dn, rn = declare(b, sp, d)
    b.prob.setup(check=False)
    b.prob.run()
    r = Ref(sp)
    u = r.solve()
    for v, _ in r.vars:
        R.check(relerr(flat(b.prob[b.u(v)]), r.get(u, v)) < 1e-8, 'values',
                lambda: '%s = %s expected %s' % (v, b.prob[b.u(v)], r.get(u, v)))
    return sp, b, idx, dn, rn, r.totals(u)


def run(case, R):
    if case[0] == 'S':
        return run_s(case, R)
    _, g, t, s, d, style, mode = case[:7]
    approx = len(case) > 7
    tol = 1e-6 if approx else TOL
    sp, b, idx, dn, rn, D = prepare(g, t, s, d, style, R, mode, approx)
    outs = outs_of(sp)
    ins = [p + '.x' for p in sorted(sp['indeps'])]
    reqs_o = list(ordered(outs, 1)) + [outs, outs[::-1]]
    reqs_o += [[outs[0], outs[-1]], [outs[-1], outs[0]], [outs[1], outs[0]]] if len(outs) > 2 else []
    if rn:
        reqs_o.append(rn)
    reqs_i = list(ordered(ins, 2))
    if DECL[d][3] or d == 1:
        # whole parallel sets, parts of them, and an input asked for as output
        reqs_o.append([ins[0], outs[-1]])
    seen = 0
    for k, (of, wrt) in enumerate(product(reqs_o, reqs_i)):
        fmt = ('dict', 'array')[(k + g + d) % 2]
        R.step()
        try:
            J = b.prob.calc_gradient([b.u(v) for v in wrt], [b.u(v) for v in of], mode=mode, return_format=fmt)
        except Exception as err:
            R.fail('raises:%s:%s:%s:par%d' % (type(err).__name__, mode, s, DECL[d][3]),
                   'of %s wrt %s: %r' % (of, wrt, err))
            continue
        E = dict(((o, w), expect(D, idx, o, w)) for o in of for w in wrt)
        tag = '%s:%s:%s:par%d%s' % (mode, fmt, s, DECL[d][3], ':fd' if approx else '')
        if fmt == 'array':
            e = np.vstack([np.hstack([E[o, w] for w in wrt]) for o in of])
            R.check(relerr(J, e) < tol, tag, lambda: 'of %s wrt %s: %s expected %s' % (of, wrt, J.tolist(), e.tolist()))
        else:
            for o in of:
                for w in wrt:
                    j = J[b.u(o)][b.u(w)]
                    R.check(relerr(j, E[o, w]) < tol, tag,
                            lambda: 'of %s wrt %s: d %s/d %s = %s expected %s'
                            % (of, wrt, o, w, np.asarray(j).tolist(), E[o, w].tolist()))
                    if not np.any(E[o, w]):
                        R.check(np.max(np.abs(j)) < (1e-13 if approx else 1e-300), 'zero', lambda: 'no path %s -> %s but %s' % (w, o, j))
            R.check(list(J) == [b.u(o) for o in of] and all(list(J[b.u(o)]) == [b.u(w) for w in wrt] for o in of),
                    'keys', lambda: 'of %s wrt %s: keys %s' % (of, wrt, dict((o, list(J[o])) for o in J)))
    R.trace()
    R.state((g, t, s, d, style, mode, approx))


def run_s(case, R):
    """sparsity and inactive rows"""
    _, g, s, par = case
    for mode in ('fwd', 'rev'):
        sp, b, idx, dn, rn, D = prepare(g, (g + par) % len(TREES), s, 7 if par else 1, 'root', R, mode)
        if not par:
            rn = outs_of(sp)[-2:]
        dn = ['p.x', 'q.x']
        U = b.u
        for pat in product([0, 1], repeat=4):
            spar = dict((U(o), [U(w) for j, w in enumerate(dn) if pat[2 * i + j]]) for i, o in enumerate(rn))
            J = b.prob.calc_gradient([U(v) for v in dn], [U(v) for v in rn], mode=mode, return_format='dict',
                                     sparsity=spar)
            R.step()
            for o in rn:
                R.check(sorted(J[U(o)]) == sorted(spar[U(o)]), 'sparsity:keys', '%s %s' % (o, list(J[U(o)])))
                for w in dn:
                    if U(w) in J[U(o)]:
                        R.check(relerr(J[U(o)][U(w)], D[o, w]) < TOL, 'sparsity:' + mode,
                                lambda: '%s: %s %s %s expected %s' % (spar, o, w, J[U(o)][U(w)], D[o, w]))
        if mode == 'rev':
            for pat in product([0, 1], repeat=4):
                ina = {}
                for i, o in enumerate(rn):
                    k = [j for j in range(2) if pat[2 * i + j]]
                    if k:
                        ina[U(o)] = k
                for fmt in ('dict', 'array'):
                    J = b.prob.calc_gradient([U(v) for v in dn], [U(v) for v in rn], mode='rev', return_format=fmt,
                                             inactives=ina)
                    R.step()
                    E = np.vstack([np.hstack([D[o, w] for w in dn]) for o in rn])
                    for i, x in enumerate(pat):
                        if x:
                            E[i] = 0.
                    if fmt == 'dict':
                        J = np.vstack([np.hstack([J[U(o)][U(w)] for w in dn]) for o in rn])
                    R.check(relerr(J, E) < TOL, 'inactives:' + fmt, lambda: '%s: %s expected %s' % (ina, J, E))
    R.trace()
    R.state(case)
