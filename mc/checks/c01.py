"""C01: total derivatives against the implicit-function theorem."""
from itertools import product
import numpy as np
from mc.models import build, setup, Ref, flat, relerr, size, NL, LN
from mc.topo import dags, trees, groups_of, subsets

PID = 'C01'
LEVEL = 'model_checking'
RULE = ('complete products over: data-flow graphs on 3 components x component trees x linear '
        'solvers at root and subgroups (A); cyclic/implicit graphs x trees x kinds x solvers (B); '
        'shapes x source-index maps x units x connection style x partial kinds (C); promotion '
        'patterns over nested groups with colliding names (D); multiple inputs/outputs and shared sources (E); residual scaling x units x approximated components (G); 4-component graphs (thorough). Each '
        'case is checked in both modes and both return formats; a state is a distinct '
        '(model, point, Jacobian) outcome.')
ASSUMPTIONS = ['component partials supplied by the harness are correct (verified analytically in '
               'the reference)', 'tolerance 1e-6 relative to the largest entry']
TOL = 1e-6


def graph_spec(edges, shape=(2,), derivs=None, kinds=None, scale=1.0):
    shape = list(shape)
    comps, conns = {}, []
    names = sorted(set(t for _, t in edges))
    srcs = sorted(set(s for s, _ in edges if s.startswith('p')))
    for k, c in enumerate(names):
        ins = {}
        for s, t in edges:
            if t == c:
                ins['a_' + s] = shape
                conns.append([s + ('.x' if s in srcs else '.y'), c + '.a_' + s, None])
        comps[c] = {'ins': ins, 'outs': {'y': shape}, 'scale': scale,
                    'deriv': (derivs or ['jac', 'mf', 'jac', 'mf'])[k % 4],
                    'kind': (kinds or {}).get(c, 'exp')}
    return {'indeps': dict((s, {'x': shape}) for s in srcs), 'comps': comps, 'conns': conns}


def fam_a(tier):
    n = 3
    lr = ['gs', 'direct', 'dirsolve', 'gmres', 'gmres_gs', 'gmres_dir', 'asm']
    ls = ['gs', 'direct', 'gmres', 'asm']
    for gi, e in enumerate(dags(n)):
        for ti, t in enumerate(trees(n)):
            for a in lr:
                if not groups_of(t):
                    subs = ['gs']
                else:
                    subs = ls
                for b in subs:
                    if a == 'gmres_gs' and b == 'gmres':
                        continue    # scipy's gmres is not re-entrant
                    for style in (['root', 'prom'] if tier == 'quick' else
                                  ['root', 'lca', 'prom', 'list']):
                        if tier == 'quick' and (gi + ti) % 2 != (style == 'prom'):
                            continue
                        yield ['A', gi, ti, a, b, style]


CYC = [[['p', 'c1'], ['c1', 'c2'], ['c2', 'c1']],
       [['p', 'c1'], ['p', 'c2'], ['c1', 'c2'], ['c2', 'c1']],
       [['p', 'c1'], ['c1', 'c2'], ['c2', 'c3'], ['c3', 'c1']],
       [['p', 'c1'], ['c1', 'c2'], ['c2', 'c3'], ['c3', 'c2']],
       [['p', 'c1'], ['c1', 'c2'], ['c2', 'c1'], ['c2', 'c3'], ['p', 'c3']],
       [['p', 'c1'], ['c1', 'c2'], ['c2', 'c3'], ['c3', 'c1'], ['c2', 'c1'], ['c1', 'c3']],
       [['p', 'c2'], ['c3', 'c2'], ['c2', 'c3'], ['c3', 'c1'], ['p', 'c1']],
       [['p', 'c1'], ['c1', 'c2'], ['c1', 'c3'], ['c3', 'c2']],
       [['p', 'c1'], ['p', 'c2'], ['p', 'c3']],
       [['p', 'c1'], ['c1', 'c2'], ['c2', 'c3']]]


def fam_b(tier):
    for gi, e in enumerate(CYC):
        n = len(set(t for _, t in e))
        for ti, t in enumerate(trees(n)):
            for kinds in product(['exp', 'imp'], repeat=n):
                for a in ['gs', 'direct', 'gmres', 'gmres_gs', 'dirsolve']:
                    for b in (['gs', 'direct'] if groups_of(t) else ['gs']):
                        yield ['B', gi, ti, list(kinds), a, b]


SH = [[], [1], [2], [3], [2, 2]]


def progressions(n):
    """every arithmetic progression of indices inside range(n), length >= 2"""
    for k in range(2, n + 1):
        for a in range(n):
            for d in range(-n + 1, n):
                t = [a + d * j for j in range(k)]
                if 0 <= min(t) and max(t) < n:
                    yield t


BIG = [[6], [2, 3], [3, 1, 2]]
BLOCKS = [[0, 1, 4, 5], [4, 5, 0, 1], [0, 2, 4, 5], [5, 3, 1, 0], [1, 2, 3, 3], [0, 0, 0, 1, 2],
          [2, 3, 4, 5, 0, 1], [0, 2, 1, 3], [5, 0, 5, 0], [1, 3, 5, 4, 2, 0]]


def idx_maps(n, tier):
    """source index tuples over range(n), lengths 1..3 (all) with repeats."""
    top = 3 if n <= 3 else 2
    for k in range(1, top + 1):
        for t in product(range(n), repeat=k):
            yield list(t)
    if n == 4:
        for t in progressions(4):
            if len(t) > 2:
                yield t
        yield [3, 1, 0]
        yield [1, 1, 3, 0]


def fam_c(tier):
    for ss in SH:
        n = size(ss)
        maps = [None] + list(idx_maps(n, tier))
        for m in maps:
            for st in ('root', 'param', 'prom', 'lca'):
                for un in (0, 1):
                    for d in ('jac', 'mf'):
                        for ln in ('gs1', 'direct', 'gmres', 'asm', 'rgs_asm'):
                            if m is None and st == 'param':
                                continue
                            if ln.endswith('asm') and d == 'mf':
                                continue
                            if ss == [] and m is not None:
                                continue    # a float source cannot feed an array
                            if tier == 'quick' and n >= 4 and m and len(m) == 2 and un:
                                continue
                            yield ['C', ss, m, st, un, d, ln]


def fam_c2(tier):
    for ss in BIG:
        for m in list(progressions(6)) + BLOCKS:
            for st, un, d, ln in (('root', 1, 'jac', 'gs1'), ('prom', 0, 'mf', 'direct'),
                                  ('param', 1, 'jac', 'asm'), ('lca', 0, 'fd', 'gmres'),
                                  ('root', 1, 'cs', 'gs1')):
                yield ['C', ss, m, st, un, d, ln]
    for t in product(range(5 if tier == 'quick' else 6), repeat=4):
        yield ['C', [6], list(t), 'root', 0, 'jac', 'gs1']
        if tier == 'thorough':
            yield ['C', [6], list(t), 'root', 0, 'jac', 'asm']


def fam_d(tier):
    nodes = ['c1', 'c11', 'c12', 'c', 'g', 'g1', 'p']
    for promo in subsets(nodes):
        for ln in ('gs', 'direct', 'gmres', 'asm'):
            for tr in (0, 1, 2):
                yield ['D', promo, ln, tr]


def fam_e(tier):
    """multi input / multi output comps, duplicated sources, extra indeps, requests"""
    for dup in (0, 1, 2):
        for d in ('jac', 'mf', 'fd', 'cs'):
            for ln in ('gs1', 'direct', 'gmres', 'asm', 'gmres_gs', 'rgs_asm'):
                for tr in range(4):
                    for sh in ([], [2], [2, 2]):
                        if ln.endswith('asm') and d == 'mf':
                            continue
                        yield ['E', dup, d, ln, tr, sh]


def fam_g(tier):
    """scaled residuals, units, approximated components, explicit solver modes"""
    for kinds in product(['exp', 'imp'], repeat=3):
        for d in ('jac', 'mf', 'fd', 'cs'):
            for rs in ((None, 4.0, -.5) if 'imp' in kinds else (None,)):
                for un in (0, 1):
                    for ln in ('direct', 'gmres', 'asm', 'gs1'):
                        for tr in (0, 1):
                            for mode in ('auto', 'fwd', 'rev'):
                                if ln == 'asm' and d == 'mf' or ln == 'gs1' and rs:
                                    continue
                                if mode != 'auto' and (un or ln == 'asm' or tr):
                                    continue
                                yield ['G', list(kinds), d, rs, un, ln, tr, mode]


def cases(tier):
    out = []
    for f in (fam_a, fam_b, fam_c, fam_c2, fam_d, fam_e, fam_g):
        out += list(f(tier))
    runs = [[k] for k in range(5)] + list(progressions(5))
    for a in runs:
        for b in runs:
            if tier == 'thorough' or (len(a) + len(b)) % 2 == 0 or 2 in (len(a), len(b)):
                out.append(['S', a, b, (len(out) // 3) % 2, ['jac', 'mf'][len(out) % 2]])
    if tier == 'thorough':
        for gi, e in enumerate(dags(4)):
            for ti in range(20):
                for a in ('gs', 'direct', 'gmres'):
                    out.append(['F', gi, ti, a])
    return out


_D3 = list(dags(3))
_D4 = list(dags(4))
_T = dict((n, list(trees(n))) for n in (1, 2, 3, 4))


def spec(case):
    f = case[0]
    if f in 'AF':
        _, gi, ti, a = case[:4]
        b = case[4] if f == 'A' else 'direct'
        if f == 'A':
            e, t = _D3[gi], _T[3][ti]
        else:
            e, t = _D4[gi], _T[4][ti]
        asm = a == 'asm' or b == 'asm'
        sp = graph_spec(e, derivs=['jac'] * 4 if asm else None)
        sp['tree'] = t
        sp['style'] = case[5] if f == 'A' else 'root'
        sp['solv'] = {'*': {'ln': b, 'nl': 'gs'}, '': {'ln': a, 'nl': 'gs'}}
        return sp
    if f == 'B':
        _, gi, ti, kinds, a, b = case
        e = CYC[gi]
        names = sorted(set(t for _, t in e))
        sp = graph_spec(e, kinds=dict(zip(names, kinds)), scale=.3)
        sp['tree'] = _T[len(names)][ti]
        sp['style'] = 'root'
        sp['solv'] = {'*': {'ln': b, 'nl': 'gs'}, '': {'ln': a, 'nl': 'gs'}}
        return sp
    if f == 'C':
        _, ss, m, st, un, d, ln = case
        ts = ss if m is None else [len(m)]
        sp = {'indeps': {'p': {'x': ss}},
              'comps': {'c1': {'ins': {'a': ts}, 'outs': {'y': [2]}, 'deriv': d},
                        'c2': {'ins': {'a': ss, 'b': [2]}, 'outs': {'y': ts, 'z': []},
                               'deriv': 'jac'},
                        'c3': {'ins': {'a': ts, 'b': []}, 'outs': {'y': [2]}, 'deriv': d}},
              'conns': [['p.x', 'c1.a', m], ['p.x', 'c2.a', None], ['c1.y', 'c2.b', [1, 0]],
                        ['c2.y', 'c3.a', None], ['c2.z', 'c3.b', None]],
              'tree': ['p', ['G', 'g', ['c1', 'c2']], 'c3'],
              'style': 'root' if st == 'param' else st,
              'solv': solv_e(ln)}
        if st == 'param':
            sp['idx_at'] = 'param'
        if un:
            sp['units'] = {'p.x': 'm', 'c1.a': 'ft', 'c1.y': 'degC', 'c2.b': 'degF',
                           'c2.z': 'cm', 'c3.b': 'km'}
        return sp
    if f == 'S':
        from mc.checks.c02 import pieces
        return pieces(case, deriv=case[4])
    if f == 'G':
        _, kinds, d, rs, un, ln, tr, mode = case
        sp = {'indeps': {'p': {'x': [3]}},
              'comps': {'c1': {'ins': {'a': [2]}, 'outs': {'y': [2]}},
                        'c2': {'ins': {'a': [2], 'b': [3]}, 'outs': {'y': [3]}},
                        'c3': {'ins': {'a': [3], 'b': [2], 'c': [2]}, 'outs': {'y': [1]}}},
              'conns': [['p.x', 'c1.a', [2, 0]], ['c1.y', 'c2.a', None], ['p.x', 'c2.b', None],
                        ['c2.y', 'c3.a', None], ['c2.y', 'c3.b', [1, 1]],
                        ['c1.y', 'c3.c', [1, 0]]],
              'tree': [['p', 'c1', 'c2', 'c3'], ['p', ['G', 'g', ['c1', 'c2', 'c3']]]][tr],
              'style': 'root',
              'solv': {'*': {'ln': ln, 'nl': 'run', 'mode': mode}}}
        for k, c in enumerate(sorted(sp['comps'])):
            sp['comps'][c].update(kind=kinds[k], deriv=d, scale=.5)
            if rs:
                sp['comps'][c]['rscale'] = rs
        if un:
            sp['units'] = {'p.x': 'm', 'c1.a': 'ft', 'c1.y': 'degC', 'c2.a': 'degF',
                           'c3.c': 'degF', 'c2.y': 'cm', 'c3.b': 'm'}
        return sp
    if f == 'D':
        _, promo, ln, tr = case
        sh = [2]
        sp = {'indeps': {'p': {'x': sh}},
              'comps': {'c1': {'ins': {'a': sh}, 'outs': {'y': sh}},
                        'c11': {'ins': {'a': sh, 'b': sh}, 'outs': {'y': sh}, 'kind': 'imp'},
                        'c': {'ins': {'a': sh}, 'outs': {'y': [1]}},
                        'c12': {'ins': {'a': sh, 'b': [1]}, 'outs': {'y': sh},
                                'deriv': 'jac' if ln == 'asm' else 'mf'}},
              'conns': [['p.x', 'c1.a', None], ['c1.y', 'c11.a', [1, 0]], ['p.x', 'c11.b', None],
                        ['c1.y', 'c.a', None], ['c11.y', 'c12.a', None], ['c.y', 'c12.b', None]],
              'tree': [['p', ['G', 'g', ['c1', ['G', 'g1', ['c11', 'c']]]], 'c12'],
                       ['p', ['G', 'g', ['c1', 'c11']], ['G', 'g1', ['c', 'c12']]],
                       [['G', 'g', ['p', 'c1', ['P', 'g1', ['c', 'c11']]]], 'c12']][tr],
              'style': 'mix', 'promo': promo,
              'solv': {'*': {'ln': ln, 'nl': 'run'}}}
        return sp
    if f == 'E':
        _, dup, d, ln, tr, sh = case
        n = size(sh)
        sp = {'indeps': {'p': {'x': sh, 'w': []}, 'q': {'x': [3]}},
              'comps': {'c1': {'ins': {'a': sh, 'b': [2]}, 'outs': {'y': sh, 'z': [2]},
                               'deriv': d},
                        'c2': {'ins': {'a': sh, 'b': [2], 'c': [], 'u': [2]},
                               'outs': {'y': [], 'z': sh}, 'deriv': 'jac' if ln.endswith('asm') else 'mf'},
                        'c3': {'ins': {'a': sh, 'b': sh, 'c': []}, 'outs': {'y': [2]},
                               'deriv': d}},
              'conns': [['p.x', 'c1.a', None], ['q.x', 'c1.b', [2, 0]],
                        ['c1.y', 'c2.a', None], ['c1.z', 'c2.b', None], ['p.w', 'c2.c', None],
                        ['c2.z', 'c3.a', None], ['c2.y', 'c3.c', None]],
              'style': 'root', 'solv': solv_e(ln),
              'tree': [['p', 'q', 'c1', 'c2', 'c3'],
                       ['p', 'q', ['G', 'g', ['c1', 'c2', 'c3']]],
                       ['q', ['G', 'g', ['p', ['G', 'h', ['c1', 'c2']]]], 'c3'],
                       ['p', 'q', ['G', 'g', ['c1']], ['G', 'h', ['c2', 'c3']]]][tr]}
        if dup == 0:
            sp['conns'].append(['c1.y', 'c3.b', None])
        elif dup == 1:   # two inputs of one component fed by the same source
            sp['conns'].append(['c2.z', 'c3.b', None])
        else:            # and with reversed indices
            sp['conns'].append(['c2.z', 'c3.b', list(range(n))[::-1] if sh != [] else None])
            sp['idx_at'] = 'conn'
        return sp


def solv_e(ln):
    if ln == 'gmres_gs':
        return {'*': {'ln': 'gs1', 'nl': 'run'}, '': {'ln': 'gmres_gs', 'nl': 'run'}}
    if ln == 'rgs_asm':
        return {'*': {'ln': 'asm', 'nl': 'run'}, '': {'ln': 'gs1', 'nl': 'run'}}
    return {'*': {'ln': ln, 'nl': 'run'}}


def run(case, R):
    sp = spec(case)
    r = Ref(sp)
    b = setup(build(sp))
    prob = b.prob
    prob.run()
    R.step(2)
    u = r.solve()
    for v, _ in r.vars:
        e = relerr(flat(prob[b.u(v)]), r.get(u, v))
        R.check(e < 1e-7, 'value:' + v, 'value of %s off by %g' % (v, e))
    D = r.totals(u)
    ins = [p + '.' + o for p, outs in sp['indeps'].items() for o in outs]
    outs = [v for v, _ in r.vars if v not in ins]
    ofs = outs + ins[:1]
    wn = [b.u(i) for i in ins]
    on = [b.u(o) for o in ofs]
    for mode in ('fwd', 'rev'):
        J = prob.calc_gradient(wn, on, mode=mode, return_format='dict')
        A = prob.calc_gradient(wn, on, mode=mode, return_format='array')
        R.step(2)
        full = np.vstack([np.hstack([D[o, i] for i in ins]) for o in ofs])
        e = relerr(A, full)
        R.check(e < TOL, 'array:%s' % mode,
                lambda: 'array Jacobian (%s) off by %g:\n%s\nexpected\n%s' % (mode, e, A, full))
        R.check(sorted(J) == sorted(on), 'keys:%s' % mode, str(list(J)))
        for o in ofs:
            for i in ins:
                e = relerr(J[b.u(o)][b.u(i)], D[o, i])
                R.check(e < TOL, 'dict:%s' % mode, lambda: 'd %s/d %s (%s) off by %g: %s expected %s'
                        % (o, i, mode, e, J[b.u(o)][b.u(i)].tolist(), D[o, i].tolist()))
        R.state([case, mode, np.round(full, 6).tolist()])
        R.trace()
