"""C02: a run computes the composition the connections describe."""
from itertools import product
import numpy as np
from mc.models import build, setup, Ref, flat, relerr, size, paths
from mc.topo import dags, trees, groups_of, subsets
from mc.checks.c01 import graph_spec, SH, idx_maps, BIG, BLOCKS, progressions

PID = 'C02'
LEVEL = 'model_checking'
RULE = ('complete products over: 3-component (thorough: 4) data-flow graphs x component trees x insertion '
        'orders x writing styles x serial/parallel groups (A); shapes x all source-index maps x units x '
        'styles (B); all promotion subsets of nested groups with look-alike names (C); wildcard '
        'promotion patterns x name sets (D); unconnected inputs, initial values and '
        'every order of setting them (E). Each model is run at three input points and every output and '
        'every component input is compared with the reference composition.')
ASSUMPTIONS = ['component functions supplied by the harness are the ones in the reference']
NOTE = ('every output and input value of every model in the bounded grammar is compared with an '
        'independent numpy composition; trusts mc/models.Ref')
TOL = 1e-10


def quotient_acyclic(tree, edges):
    """True if at every group level the children form an acyclic data flow."""
    def comps(node):
        return [node] if isinstance(node, str) else [c for ch in node[2] for c in comps(ch)]

    def ok(children):
        own = {}
        for k, ch in enumerate(children):
            for c in comps(ch):
                own[c] = k
        adj = dict((k, set()) for k in range(len(children)))
        for s, t in edges:
            if s in own and t in own and own[s] != own[t]:
                adj[own[t]].add(own[s])
        while adj:
            r = [k for k in adj if not adj[k]]
            if not r:
                return False
            for k in r:
                del adj[k]
            for d in adj.values():
                d.difference_update(r)
        return all(isinstance(ch, str) or ok(ch[2]) for ch in children)
    return ok(tree)


def reorder(tree, perm):
    out = []
    for node in tree:
        out.append(node if isinstance(node, str) else [node[0], node[1], reorder(node[2], perm)])
    return out[::-1] if perm == 1 else (out[1:] + out[:1] if perm == 2 else out)


def paral(tree):
    out = []
    for node in tree:
        if isinstance(node, str):
            out.append(node)
        else:
            leaf = all(isinstance(c, str) for c in node[2])
            out.append(['P' if leaf else 'G', node[1], paral(node[2])])
    return out


def no_inner_edges(tree, edges):
    """parallel groups are only meaningful without data flow between members"""
    bad = []

    def walk(node):
        if isinstance(node, str):
            return
        if all(isinstance(c, str) for c in node[2]):
            bad.append(any(s in node[2] and t in node[2] for s, t in edges))
        for c in node[2]:
            walk(c)
    for n in tree:
        walk(n)
    return not any(bad)


def cases(tier):
    out = []
    n = 3
    for gi, e in enumerate(dags(n)):
        for ti, t in enumerate(trees(n)):
            for perm in (0, 1, 2):
                for style in ('root', 'lca', 'prom', 'list'):
                    out.append(['A', n, gi, ti, perm, style, 0])
                    if groups_of(t) and no_inner_edges(t, e):
                        out.append(['A', n, gi, ti, perm, style, 1])
    for ss in SH:
        for m in [None] + (list(idx_maps(size(ss), tier)) if ss else []):
            for st in ('root', 'param', 'prom', 'lca', 'list'):
                for un in (0, 1):
                    if m is None and st == 'param':
                        continue
                    out.append(['B', ss, m, st, un])
    for ss in BIG:
        for m in list(progressions(6)) + BLOCKS + (list(idx_maps(6, tier)) if tier == 'thorough' else []):
            for st in ('root', 'param', 'prom', 'lca'):
                for un in (0, 1):
                    out.append(['B', ss, m, st, un])
    for t in product(range(6), repeat=4):
        out.append(['B', [6], list(t), 'root', 0])
    for t in product(range(4 if tier == 'quick' else 5), repeat=5):
        out.append(['B', [5], list(t), 'root', 0])
    # pieces of one source next to each other in the inputs
    runs = [[k] for k in range(5)] + [t for t in progressions(5)]
    for a in runs:
        for b in runs:
            for lay in (0, 1):
                if tier == 'thorough' or lay == 0 or len(a) == len(b):
                    out.append(['S', a, b, lay])
    for promo in subsets(['c1', 'c11', 'c12', 'c', 'g', 'g1', 'p']):
        for tr in range(4):
            out.append(['C', promo, tr])
    pats = ['*', 'a*', '*b', '?b', 'ab', 'a?', '[ab]b', 'b*', 'y*', '*y', 'y', 'zz*', 'a[!b]*', 'a.b']
    for k in (1, 2):
        for ps in subsets(pats, k, k):
            for lvl in (1, 2):
                out.append(['D', ps, lvl])
    for order in range(6):
        for style in (0, 1, 2, 3):
            for sh in ([], [1], [2], [2, 2]):
                for form in (0, 1, 2):
                    out.append(['E', order, style, sh, form])
    if True:
        for gi, e in enumerate(dags(4)):
            for ti, t in enumerate(trees(4)):
                for perm in (0, 1, 2) if tier == 'thorough' else ((gi + ti) % 3,):
                    for style in ('root', 'prom', 'list') if tier == 'thorough' else ('root',):
                        out.append(['A', 4, gi, ti, perm, style, 0])
    return out


_D = {}


def dd(n):
    if n not in _D:
        _D[n] = (list(dags(n)), list(trees(n)))
    return _D[n]


def spec(case):
    f = case[0]
    if f == 'A':
        _, n, gi, ti, perm, style, par = case
        D, T = dd(n)
        sp = graph_spec(D[gi])
        t = reorder(T[ti], perm)
        sp['tree'] = paral(t) if par else t
        sp['style'] = style
        nl = 'run' if quotient_acyclic(t, [tuple(x) for x in D[gi]]) else 'gs'
        sp['solv'] = {'*': {'nl': nl, 'ln': 'gs'}}
        return sp
    if f == 'B':
        _, ss, m, st, un = case
        ts = ss if m is None else [len(m)]
        sp = {'indeps': {'p': {'x': ss}},
              'comps': {'c1': {'ins': {'a': ts}, 'outs': {'y': [2]}},
                        'c2': {'ins': {'a': ss, 'b': [2]}, 'outs': {'y': ts, 'z': []}},
                        'c3': {'ins': {'a': ts, 'b': [], 'f': [2]}, 'outs': {'y': [2]}}},
              'conns': [['p.x', 'c1.a', m], ['p.x', 'c2.a', None], ['c1.y', 'c2.b', [1, 0]],
                        ['c2.y', 'c3.a', None], ['c2.z', 'c3.b', None]],
              'tree': [['G', 'g', ['c2', 'c1']], 'p', 'c3'],
              'style': 'root' if st == 'param' else st, 'solv': {'*': {'nl': 'run'}}}
        if st == 'param':
            sp['idx_at'] = 'param'
        if un:
            sp['units'] = {'p.x': 'm', 'c1.a': 'ft', 'c1.y': 'degC', 'c2.b': 'degF',
                           'c2.z': 'cm', 'c3.b': 'km', 'c2.a': 'cm', 'c3.f': 'degK'}
        return sp
    if f == 'S':
        return pieces(case)
    if f == 'C':
        _, promo, tr = case
        sh = [2]
        sp = {'indeps': {'p': {'x': sh}},
              'comps': {'c1': {'ins': {'a': sh}, 'outs': {'y': sh}},
                        'c11': {'ins': {'a': sh, 'b': sh}, 'outs': {'y': sh}, 'kind': 'imp'},
                        'c': {'ins': {'a': sh}, 'outs': {'y': [1]}},
                        'c12': {'ins': {'a': sh, 'b': [1], 'f': sh}, 'outs': {'y': sh}}},
              'conns': [['p.x', 'c1.a', None], ['c1.y', 'c11.a', [1, 0]], ['p.x', 'c11.b', None],
                        ['c1.y', 'c.a', None], ['c11.y', 'c12.a', None], ['c.y', 'c12.b', None]],
              'tree': [['c12', ['G', 'g', [['G', 'g1', ['c', 'c11']], 'c1']], 'p'],
                       ['p', ['G', 'g', ['c1', 'c11']], ['G', 'g1', ['c', 'c12']]],
                       [['G', 'g', ['p', 'c1', ['P', 'g1', ['c', 'c11']]]], 'c12'],
                       [['G', 'g', [['G', 'g1', [['G', 'c', ['p', 'c1']]]]]], 'c11', 'c12']][tr],
              'style': 'mix', 'promo': promo, 'solv': {'*': {'nl': 'run'}}}
        if tr == 3:     # component c renamed to c2: c is a group here
            sp['comps']['c2'] = sp['comps'].pop('c')
            sp['conns'] = [[s.replace('c.', 'c2.') if s.startswith('c.') else s,
                            t.replace('c.', 'c2.') if t.startswith('c.') else t, i]
                           for s, t, i in sp['conns']]
            sp['tree'].append('c2')
        return sp


def pieces(case, **kw):
    _, a, b, lay = case[:4]
    if lay:
        comps = {'c1': {'ins': {'a': [len(a)]}, 'outs': {'y': [2]}}, 'c2': {'ins': {'a': [len(b)]}, 'outs': {'y': [2]}}}
        conns = [['p.x', 'c1.a', a], ['p.x', 'c2.a', b]]
        tree = ['p', ['G', 'g', ['c1', 'c2']]]
    else:
        comps = {'c1': {'ins': {'a': [len(a)], 'b': [len(b)]}, 'outs': {'y': [2]}}, 'c2': {'ins': {'a': [2]}, 'outs': {'y': [1]}}}
        conns = [['p.x', 'c1.a', a], ['p.x', 'c1.b', b], ['c1.y', 'c2.a', None]]
        tree = ['p', 'c1', 'c2']
    for c in comps.values():
        c.update(kw)
    return {'indeps': {'p': {'x': [5]}}, 'comps': comps, 'conns': conns, 'tree': tree, 'style': 'root', 'solv': {'*': {'nl': 'run'}}}


def check_point(sp, r, b, vals, R, tag):
    u = r.solve(vals)
    for v, _ in r.vars:
        for how, got in (('prob', lambda: b.prob[b.u(v)]),
                         ('unknowns', lambda: b.prob.root.unknowns[b.u(v)])):
            e = relerr(flat(got()), r.get(u, v))
            R.check(e < TOL, 'value:%s' % how, lambda: '%s %s[%s] = %s expected %s'
                    % (tag, how, v, flat(got()), r.get(u, v)))
    for c, cs in sp['comps'].items():
        x = r.xin(u, c)
        for i, s in cs['ins'].items():
            val = b.comps[c].params[b.p_abs(c + '.' + i).split('.')[-1]]
            R.check(np.shape(val) == tuple(s), 'input-shape', '%s %s shape %s expected %s'
                    % (tag, c + '.' + i, np.shape(val), s))
            e = relerr(flat(val), x[i])
            R.check(e < TOL, 'input', lambda: '%s input %s.%s = %s expected %s'
                    % (tag, c, i, val, x[i]))
    for c in sp['comps']:     # outputs seen from the component itself
        for o in sp['comps'][c]['outs']:
            nm = b.p_abs(c + '.' + o).split('.')[-1]
            e = relerr(flat(b.comps[c].unknowns[nm]), r.get(u, c + '.' + o))
            R.check(e < TOL, 'value:comp', c + '.' + o)
    R.state([sp['tree'], tag, np.round(u, 9).tolist()])
    R.step()
    R.trace()


def run(case, R):
    if case[0] == 'D':
        return run_d(case, R)
    if case[0] == 'E':
        return run_e(case, R)
    sp = spec(case)
    r = Ref(sp)
    b = setup(build(sp))
    b.prob.run()
    check_point(sp, r, b, {}, R, 'start')
    sh = sp['indeps']['p']['x']
    for k in (1, 2):
        v = np.arange(size(sh)).reshape(sh) * .25 * k - .5 * k
        b.prob[b.u('p.x')] = v if sh else float(v)
        b.prob.run()
        check_point(sp, r, b, {'p.x': v}, R, 'point%d' % k)


# ---- D: wildcard promotion -------------------------------------------------

from fnmatch import fnmatchcase


def run_d(case, R):
    from openmdao.api import Problem, Group, Component, IndepVarComp
    _, pats, lvl = case
    ins, outs = ['ab', 'b', 'bb'], ['y', 'ya', 'aby']

    class C(Component):
        def __init__(self):
            super(C, self).__init__()
            for k, i in enumerate(ins):
                self.add_param(i, float(k + 1))
            for o in outs:
                self.add_output(o, 0.)

        def solve_nonlinear(self, p, u, r):
            u['y'] = p['ab'] + 10 * p['b'] + 100 * p['bb']
            u['ya'] = p['ab'] * p['b']
            u['aby'] = p['bb'] - p['ab']
    names = ins + outs
    matched = set(n for n in names if any(fnmatchcase(n, p) for p in pats))
    bad = [p for p in pats if not any(fnmatchcase(n, p) for n in names)]
    prob = Problem()
    root = prob.root = Group()
    if lvl == 1:
        root.add('c', C(), promotes=list(pats))
        path = 'c.'
    else:
        g = root.add('g', Group(), promotes=list(pats))
        g.add('c', C(), promotes=['*'])
        path = 'g.'
    try:
        prob.setup(check=False)
    except RuntimeError as err:
        R.check(bad, 'promotes-rejected', '%s rejected: %s' % (pats, err))
        R.state([pats, 'rejected'])
        R.step()
        return
    R.check(not bad, 'promotes-accepted', '%s accepted although %s match nothing' % (pats, bad))
    if bad:
        return
    for k, i in enumerate(ins):
        n = i if i in matched else path + i
        R.check(prob[n] == k + 1., 'initial', n)
        prob[n] = 2. * (k + 2)
    prob.run()
    exp = {'y': 4. + 60 + 800, 'ya': 24., 'aby': 4.}
    for o in outs:
        n = o if o in matched else path + o
        R.check(prob[n] == exp[o], 'value', '%s = %s' % (n, prob[n]))
        other = path + o if o in matched else o
        if other != n:
            try:
                prob[other]
                R.fail('name', '%s should not exist under %s' % (other, pats))
            except KeyError:
                pass
    R.state([pats, sorted(matched)])
    R.step(2)
    R.trace()


# ---- E: unconnected inputs and initial values ------------------------------

def run_e(case, R):
    from openmdao.api import Problem, Group, Component
    _, order, style, sh, form = case
    from itertools import permutations
    rs = np.random.RandomState(3)
    shp = tuple(sh)

    def val(k):
        v = np.arange(1, 1 + size(sh)).reshape(shp) * .5 + k
        return v if sh else float(v)

    class C(Component):
        def __init__(self, k):
            super(C, self).__init__()
            self.k = k
            if form == 0:
                self.add_param('a', val(1))
                self.add_param('b', val(2))
                self.add_output('y', val(3))
            elif form == 1:
                self.add_param('a', val(1))
                self.add_param('b', shape=shp if sh else 1)
                self.add_output('y', shape=shp if sh else 1)
            else:
                self.add_param('a', np.ones(shp, dtype=int) if sh else 1)
                self.add_param('b', np.array(val(2)) if sh else 2.5)
                self.add_output('y', val(3))
            self.add_param('s', 'text', pass_by_obj=True)

        def solve_nonlinear(self, p, u, r):
            u['y'] = 3. * p['a'] - self.k * p['b'] * p['b']
    prob = Problem()
    root = prob.root = Group()
    if style == 0:
        root.add('c1', C(1))
        root.add('c2', C(2))
        names = {'c1.a': 'c1.a', 'c1.b': 'c1.b', 'c2.a': 'c2.a', 'c2.b': 'c2.b'}
    elif style == 1:
        g = root.add('g', Group())
        g.add('c1', C(1))
        root.add('c2', C(2), promotes=['a', 'b'])
        names = {'c1.a': 'g.c1.a', 'c1.b': 'g.c1.b', 'c2.a': 'a', 'c2.b': 'b'}
    elif style == 2:      # shared promoted inputs
        g = root.add('g', Group(), promotes=['a'])
        g.add('c1', C(1), promotes=['a'])
        root.add('c2', C(2), promotes=['a'])
        names = {'c1.a': 'a', 'c1.b': 'g.c1.b', 'c2.a': 'a', 'c2.b': 'c2.b'}
    else:                 # connected inputs without source
        g = root.add('g', Group())
        g.add('c1', C(1), promotes=['b'])
        root.add('c2', C(2))
        root.connect('c2.a', 'g.c1.a')
        names = {'c1.a': 'g.c1.a', 'c1.b': 'g.b', 'c2.a': 'c2.a', 'c2.b': 'c2.b'}
    cur = {}
    share = style in (2, 3)
    prob.setup(check=False)
    zero = np.zeros(shp) if sh else 0.0
    for c in ('c1', 'c2'):
        cur[c + '.a'] = val(1) if form != 2 else (np.ones(shp) if sh else 1)
        cur[c + '.b'] = {0: val(2), 1: zero, 2: val(2) if sh else 2.5}[form]

    def outs():
        return dict((c, 3. * np.array(cur[c + '.a']) - k * np.array(cur[c + '.b']) ** 2)
                    for c, k in (('c1', 1), ('c2', 2)))

    def compare(tag):
        prob.run()
        R.step()
        for n, v in outs().items():
            path = ('g.' if style and n == 'c1' else '') + n + '.y'
            R.check(relerr(flat(prob[path]), flat(v)) < TOL, 'value:' + tag,
                    lambda: '%s = %s expected %s' % (path, prob[path], v))
        for n, v in cur.items():
            R.check(relerr(flat(prob[names[n]]), flat(v)) < TOL, 'input:' + tag,
                    lambda: '%s = %s expected %s' % (n, prob[names[n]], v))
        R.state([case, tag])
    compare('initial')
    keys = sorted(cur)
    perm = list(permutations(range(3)))[order]
    seq = [keys[i] for i in perm] + [keys[3]]
    for j, n in enumerate(seq):
        new = np.array(val(5 + j)) * (-1) ** j
        prob[names[n]] = new if sh else float(new)
        cur[n] = new
        if share and n.endswith('.a'):
            cur['c1.a'] = cur['c2.a'] = new
        compare('set%d' % j)
    R.trace()
