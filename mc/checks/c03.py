"""C03: every input gets exactly one source, or setup says why not."""
from itertools import product, combinations, permutations
import numpy as np
from mc.topo import subsets
from mc.models import flat, size

PID = 'C03'
LEVEL = 'model_checking'
RULE = ('all sets of up to 4 (thorough 5) connections among two outputs and three inputs, written flat, '
        'nested and in both declaration orders (G); all promotion patterns of two outputs and three '
        'inputs at two levels x one explicit connection (P); chains of indexed connections (X); all '
        'index lists around the legal range x containers x shapes (I); all pairs of value kinds, shapes and '
        'units (K, U); all wrong names (N). A union-find reference decides accept/reject and the source of '
        'each input; accepted models are run and every input is compared.')
ASSUMPTIONS = ['integer and floating point scalars are different kinds (documented behaviour)']
NOTE = 'complete enumeration of small connection graphs against a union-find reference'

OUTS = ['s.y', 's.z']
INS = ['a.x', 'b.x', 'c.x']
EDGES = [(s, t) for s in OUTS + INS for t in INS if s != t]


def uf_sources(edges, ins, outs):
    """groups of inputs joined by input-input edges -> set of sources."""
    par = dict((i, i) for i in ins)

    def find(i):
        while par[i] != i:
            i = par[i]
        return i
    for s, t in edges:
        if s in par:
            par[find(s)] = find(t)
    groups = {}
    for i in ins:
        groups.setdefault(find(i), [set(), set()])[0].add(i)
    for s, t in edges:
        if s in outs:
            groups[find(t)][1].add(s)
    return [(sorted(m), sorted(src)) for m, src in groups.values()]


def cases(tier):
    out = []
    top = 5 if tier == 'thorough' else 4
    for k in range(0, top + 1):
        for es in combinations(range(len(EDGES)), k):
            for form in (0, 1, 2):
                out.append(['G', list(es), form])
    for flags in product((0, 1, 2), repeat=5):
        for ex in range(4):
            for perm in (0, 1):
                out.append(['P', list(flags), ex, perm])
    for i1 in ([None] + [list(t) for k in (2, 3) for t in product(range(3), repeat=k)]):
        n = 3 if i1 is None else len(i1)
        for i2 in [None] + [list(t) for k in (1, 2) for t in product(range(n), repeat=k)]:
            out.append(['X', i1, i2, 0])
        out.append(['X', i1, None, 1])
        out.append(['X', i1, None, 2])
        out.append(['X', i1, None, 3])
    for ss in ([1], [2], [3], [2, 2]):
        n = size(ss)
        vals = [-n, -1, 0, 1, n - 1, n, n + 1]
        vals = sorted(set(vals))
        for k in (1, 2, 3):
            for idx in product(vals, repeat=k):
                for ts in ([], [1], [2], [3], [2, 2], None):
                    if tier == 'quick' and k == 3 and (ts == [] or ts == [1]):
                        continue
                    cont = (sum(idx) + k) % 3 if tier == 'quick' else None
                    for c in ([cont] if cont is not None else (0, 1, 2)):
                        for how in (0, 1):
                            if how == 1 and ts is None:
                                continue
                            out.append(['I', ss, list(idx), ts, c, how])
    for a in range(len(KINDS)):
        for b in range(len(KINDS)):
            for how in (0, 1, 2):
                out.append(['K', a, b, how])
    for a, b in product(range(len(UN)), repeat=2):
        for how in (0, 1, 2):
            out.append(['U', a, b, how])
            if how == 0:
                out.append(['U2', a, b])
    for k in range(len(NAMES)):
        for how in (0, 1):
            out.append(['N', k, how])
    for k in range(len(BADIDX)):
        out.append(['B', k])
    return out


KINDS = ['float', 'arr1', 'arr2', 'arr3', 'arr22', 'arr31', 'str', 'int', 'list', 'dict', 'bool',
         'obj', 'noval2', 'noval']
UN = [None, 'm', 'ft', 's', 'kg', 'degC', 'm/s', 'N', 'm*kg/s**2']
DIM = {None: None, 'm': 'L', 'ft': 'L', 's': 'T', 'kg': 'M', 'degC': 'K', 'm/s': 'V', 'N': 'F',
       'm*kg/s**2': 'F'}
NAMES = [('s.y', 'a.q', 0), ('s.q', 'a.x', 0), ('q.y', 'a.x', 0), ('s.y', 's.z', 0), ('s', 'a.x', 0),
         ('s.y', 'a', 0), ('y', 'a.x', 0), ('s.y', 'x', 0), ('s.y', 'a.x', 1), ('', 'a.x', 0),
         ('s.y.', 'a.x', 0), ('a.x', 's.y', 0), ('s.z', 'b.x', 1), ('b.x', 'a.x', 1), ('s.y', 'a.x.', 0),
         ('S.y', 'a.x', 0)]
BADIDX = [[0., 1.], ['0', '1'], 'a.x', [0, 1.5], [None, 1], [[0, 1]], np.array([0., 1.]).tolist()]


class Obj(object):
    pass


OBJ = Obj()


def kind_val(k):
    return {'float': 2.5, 'arr1': np.array([1.5]), 'arr2': np.array([1., 2.]),
            'arr3': np.array([1., 2., 3.]), 'arr22': np.array([[1., 2.], [3., 4.]]),
            'arr31': np.array([[1.], [2.], [3.]]), 'str': 'abc', 'int': 3, 'list': [1, 2],
            'dict': {'k': 1}, 'bool': True, 'obj': OBJ}[k]


def comp(pyname, ins=(), outs=(), fn=None):
    """ins/outs: (name, args, kwargs)"""
    from openmdao.api import Component

    class C(Component):
        def __init__(self):
            super(C, self).__init__()
            self.seen = {}
            for n, a, kw in ins:
                self.add_param(n, *a, **kw)
            for n, a, kw in outs:
                self.add_output(n, *a, **kw)

        def solve_nonlinear(self, p, u, r):
            for n, _, _ in ins:
                v = p[n]
                self.seen[n] = np.array(v) if isinstance(v, np.ndarray) else v
            if fn:
                fn(p, u)
    return C()


def src_vals(c):
    y = np.array([[1., 2.], [3., 5.], [7., 11.]])
    return y


def try_setup(prob):
    """(accepted, error)"""
    try:
        prob.setup(check=False)
        return True, None
    except (RuntimeError, NameError, TypeError, ValueError, KeyError) as err:
        return False, err


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(a, float):
        return flat(a).shape == flat(b).shape and np.all(flat(a) == flat(b))
    return a is b or a == b


def run(case, R):
    {'G': run_g, 'P': run_p, 'X': run_x, 'I': run_i, 'K': run_k, 'U': run_u, 'U2': run_u2,
     'N': run_n, 'B': run_b}[case[0]](case, R)


def verdict(R, ok, err, expect, what, tag):
    R.step()
    if expect:
        R.check(ok, tag + ':rejected-valid', lambda: '%s was rejected: %r' % (what, err))
    else:
        R.check(not ok, tag + ':accepted-invalid', lambda: '%s was accepted' % what)
        if not ok:
            R.check(len(str(err)) > 10, tag + ':no-message', repr(err))
    return ok and expect


def run_g(case, R):
    from openmdao.api import Problem, Group
    _, es, form = case
    edges = [EDGES[i] for i in es]
    if form == 2:
        edges = edges[::-1]
    prob = Problem()
    root = prob.root = Group()
    v2 = np.array([1., 2.])
    names = dict((n, n) for n in INS + OUTS)
    comps = {}
    comps['s'] = comp('s', outs=[('y', (v2 * 3,), {}), ('z', (v2 * 5,), {})],
                      fn=lambda p, u: (u.__setitem__('y', v2 * 7), u.__setitem__('z', v2 * 9)))
    for c in 'abc':
        comps[c] = comp(c, ins=[('x', (v2.copy(),), {})], outs=[('o', (v2.copy(),), {})])
    if form == 1:
        g = root.add('g', Group())
        h = g.add('h', Group())
        g.add('a', comps['a'])
        h.add('b', comps['b'])
        root.add('c', comps['c'])
        h.add('s', comps['s'])
        names.update({'a.x': 'g.a.x', 'b.x': 'g.h.b.x', 's.y': 'g.h.s.y', 's.z': 'g.h.s.z'})
        for s, t in edges:
            if s[0] in 'sab' and t[0] in 'ab':
                if s[0] in 'sb' and t[0] == 'b':
                    h.connect(s, t)
                else:
                    g.connect(names[s][2:], names[t][2:])
            else:
                root.connect(names[s], names[t])
    else:
        for c in 'sabc':
            root.add(c, comps[c])
        for s, t in edges:
            root.connect(s, t)
    groups = uf_sources(edges, INS, OUTS)
    expect = all(len(src) <= 1 for m, src in groups)
    ok, err = try_setup(prob)
    R.state([sorted(edges), form, expect])
    if not verdict(R, ok, err, expect, '%s' % edges, 'graph'):
        return
    prob.run()
    R.step()
    for m, src in groups:
        if src:
            val = v2 * (7 if src[0] == 's.y' else 9)
            for i in m:
                R.check(same(comps[i[0]].seen['x'], val), 'graph:value',
                        lambda: '%s: %s ran with %s, its source %s is %s'
                        % (edges, i, comps[i[0]].seen['x'], src[0], val))
                R.check(same(prob[names[i]], val), 'graph:read', i)
        else:
            for k, i in enumerate(m):
                new = v2 * (k + 2) + 1
                prob[names[i]] = new
                prob.run()
                R.step()
                for j in m:
                    R.check(same(comps[j[0]].seen['x'], new), 'graph:shared',
                            lambda: '%s: setting %s left %s at %s' % (edges, i, j, comps[j[0]].seen['x']))
                    R.check(same(prob[names[j]], new), 'graph:shared-read', j)
    R.trace()


def run_p(case, R):
    """promotion patterns: flags per component (s1 s2 a b c): 0 none, 1 to group, 2 to root."""
    from openmdao.api import Problem, Group, ScipyGMRES, NLGaussSeidel
    _, fl, ex, perm = case
    prob = Problem()
    root = prob.root = Group()
    root.ln_solver = ScipyGMRES()       # the groups may feed each other
    root.nl_solver = NLGaussSeidel()
    root.nl_solver.options['iprint'] = -1
    order = ['s1', 's2', 'a', 'b', 'c']
    where = {'s1': 'g', 's2': 'h', 'a': 'g', 'b': 'h', 'c': 'h'}
    v2 = np.array([1., 2.])
    comps = {}
    for k, c in enumerate(order):
        if c[0] == 's':
            comps[c] = comp(c, outs=[('x', (v2,), {})],
                            fn=lambda p, u, k=k: u.__setitem__('x', v2 * (7 + 2 * k)))
        else:
            comps[c] = comp(c, ins=[('x', (v2,), {})], outs=[('o', (v2,), {})])
    flags = dict(zip(order, fl))
    groups = {'g': Group(), 'h': Group()}
    # a group promotes x to the root if any member asks for it
    up = dict((g, any(flags[c] == 2 for c in order if where[c] == g)) for g in 'gh')
    prom = {}
    for c in order:
        g = where[c]
        if not flags[c]:
            prom[c] = '%s.%s.x' % (g, c)
        else:
            prom[c] = 'x' if up[g] else g + '.x'
    seq = order if not perm else order[::-1]
    for g in ('gh' if not perm else 'hg'):
        root.add(g, groups[g], promotes=['x'] if up[g] else None)
        for c in seq:
            if where[c] == g:
                groups[g].add(c, comps[c], promotes=['x'] if flags[c] else None)
    edges = []
    src_t = {1: ('s1', 'a'), 2: ('s2', 'b'), 3: ('s1', 'c')}.get(ex)
    bad_target = False
    nm = {}
    for c in order:
        nm.setdefault(prom[c], []).append(c)
    clash = any(sum(1 for c in m if c[0] == 's') > 1 for m in nm.values())
    for m in nm.values():
        ss = [c for c in m if c[0] == 's']
        ins = [c for c in m if c[0] != 's']
        for s in ss:
            edges += [(s, t) for t in ins]
        edges += [(ins[0], t) for t in ins[1:]]
    if src_t:
        s, t = src_t
        root.connect(prom[s], prom[t])
        bad_target = any(c[0] == 's' for c in nm[prom[t]]) and prom[s] == prom[t]
        for ti in nm[prom[t]]:
            if ti[0] != 's':
                edges.append((s, ti))
    ok, err = try_setup(prob)
    grp = uf_sources(edges, ['a', 'b', 'c'], ['s1', 's2'])
    expect = all(len(x) <= 1 for _, x in grp) and not clash
    R.state([fl, ex, expect])
    if bad_target:
        return      # connecting a promoted name to itself is not specified
    if not verdict(R, ok, err, expect, '%s %s' % (fl, ex), 'promote'):
        return
    prob.run()
    R.step()
    val = {'s1': v2 * 7, 's2': v2 * 9}
    for m, src in grp:
        if src:
            for i in m:
                R.check(same(comps[i].seen['x'], val[src[0]]), 'promote:value',
                        lambda: '%s ran with %s, source %s' % (i, comps[i].seen['x'], src[0]))
        else:
            for k, i in enumerate(m):
                new = v2 * (k + 3) - 1
                prob[prom[i]] = new
                prob.run()
                for j in m:
                    R.check(same(comps[j].seen['x'], new), 'promote:shared',
                            lambda: 'setting %s left %s at %s' % (prom[i], j, comps[j].seen['x']))
    R.trace()


def run_x(case, R):
    """chains of connections with indices; form 1-3: an input upstream of the connected one."""
    from openmdao.api import Problem, Group
    _, i1, i2, form = case
    y = np.array([2., 3., 5.])
    va = y if i1 is None else y[i1]
    vb = va if i2 is None else va[i2]
    prob = Problem()
    root = prob.root = Group()
    s = comp('s', outs=[('y', (y * 0,), {})], fn=lambda p, u: u.__setitem__('y', y))
    a = comp('a', ins=[('x', (np.zeros(len(va)),), {})], outs=[('o', (0.,), {})])
    b = comp('b', ins=[('x', (np.zeros(len(vb)),), {})], outs=[('o', (0.,), {})])
    c = comp('c', ins=[('x', (np.zeros(len(vb)),), {})], outs=[('o', (0.,), {})])
    for n, k in (('s', s), ('a', a), ('b', b), ('c', c)):
        root.add(n, k)
    kw = {} if i1 is None else {'src_indices': i1}
    kw2 = {} if i2 is None else {'src_indices': i2}
    root.connect('s.y', 'a.x', **kw)
    if form == 0:
        root.connect('a.x', 'b.x', **kw2)
        root.connect('b.x', 'c.x')
    elif form == 1:
        root.connect('b.x', 'a.x')
        root.connect('c.x', 'b.x')
    elif form == 2:
        root.connect('b.x', 'a.x')
        root.connect('b.x', 'c.x')
    else:
        root.connect('c.x', 'b.x')
        root.connect('c.x', 'a.x')
    ok, err = try_setup(prob)
    R.state([case])
    if not verdict(R, ok, err, True, 'chain %s' % case, 'chain'):
        return
    prob.run()
    R.step()
    for n, k, v in (('a', a, va), ('b', b, vb), ('c', c, vb)):
        R.check(same(k.seen['x'], v), 'chain:value', lambda: '%s ran with %s expected %s'
                % (n, k.seen['x'], v))
    R.trace()


def run_i(case, R):
    from openmdao.api import Problem, Group
    _, ss, idx, ts, cont, how = case
    n = size(ss)
    prob = Problem()
    root = prob.root = Group()
    y = np.arange(1., n + 1).reshape(ss) ** 2
    s = comp('s', outs=[('y', (y * 0,), {})], fn=lambda p, u: u.__setitem__('y', y))
    ix = [list, tuple, np.array][cont](idx)
    akw = {'src_indices': ix} if how else {}
    if ts is None:
        args = ()
    elif ts == []:
        args = (0.5,)
    else:
        args = (np.zeros(ts),)
    a = comp('a', ins=[('x', args, akw)], outs=[('o', (0.,), {})])
    in_range = all(0 <= i < n for i in idx)
    fits = ts is None or len(idx) == size(ts)
    root.add('a', a)
    root.add('s', s)
    if how:
        root.connect('s.y', 'a.x')
    else:
        root.connect('s.y', 'a.x', src_indices=ix)
    if ts is None and (len(ss) > 1 or not in_range):
        # shape taken from the source: multi-dimensional sources are not specified, and a wrong
        # index may surface as an indexing error
        ok = True
        try:
            prob.setup(check=False)
        except (RuntimeError, IndexError, ValueError):
            ok = False
        R.state([case])
        if not in_range:
            R.check(not ok, 'index:accepted-invalid', str(case))
        return
    ok, err = try_setup(prob)
    R.state([case])
    if how and not fits:
        return     # rejected where the parameter is declared
    if not verdict(R, ok, err, in_range and fits, str(case), 'index'):
        return
    prob.run()
    R.step()
    exp = y.ravel()[list(idx)]
    R.check(same(flat(a.seen['x']), exp), 'index:value', lambda: '%s got %s expected %s'
            % (case, a.seen['x'], exp))
    if ts is not None:
        R.check(np.shape(a.seen['x']) == tuple(ts), 'index:shape', str(np.shape(a.seen['x'])))
    R.trace()


def decl(k):
    if k == 'noval2':
        return (), {'shape': (2,)}
    if k == 'noval':
        return (), {}
    kw = {}
    return (kind_val(k),), kw


def run_k(case, R):
    from openmdao.api import Problem, Group
    _, ka, kb, how = case
    ka, kb = KINDS[ka], KINDS[kb]
    if ka == 'noval':
        return
    prob = Problem()
    root = prob.root = Group()
    aa, akw = decl(ka)
    ba, bkw = decl(kb)
    hold = {}
    s = comp('s', outs=[('x', aa, akw)], fn=lambda p, u: hold.setdefault('y', u['x']))
    a = comp('a', ins=[('x', ba, bkw)], outs=[('o', (0.,), {})])
    if how == 0:
        root.add('s', s)
        root.add('a', a)
        root.connect('s.x', 'a.x')
    elif how == 1:
        root.add('a', a, promotes=['x'])
        root.add('s', s, promotes=['x'])
    else:
        g = root.add('g', Group())
        g.add('a', a)
        root.add('s', s, promotes=['x'])
        root.connect('x', 'g.a.x')
    arr = lambda k: k.startswith('arr') or k == 'noval2'
    shp = lambda k: [2] if k == 'noval2' else list(np.shape(kind_val(k)))
    if kb == 'noval':
        if not arr(ka) and ka != 'float':
            return       # shape from an object source: not specified
        expect = True
    elif arr(ka) and arr(kb):
        expect = shp(ka) == shp(kb)
    else:
        expect = ka == kb
    ok, err = try_setup(prob)
    R.state([ka, kb, how])
    if not verdict(R, ok, err, expect, '%s -> %s' % (ka, kb), 'kind'):
        return
    prob.run()
    R.step()
    R.check(same(a.seen['x'], hold['y']), 'kind:value', lambda: '%s -> %s: %s expected %s'
            % (ka, kb, a.seen['x'], hold['y']))
    R.trace()


def run_u(case, R):
    from openmdao.api import Problem, Group
    _, ua, ub, how = case
    ua, ub = UN[ua], UN[ub]
    prob = Problem()
    root = prob.root = Group()
    s = comp('s', outs=[('x', (2.,), {'units': ua} if ua else {})], fn=lambda p, u: u.__setitem__('x', 4.))
    a = comp('a', ins=[('x', (2.,), {'units': ub} if ub else {})], outs=[('o', (0.,), {})])
    b = comp('b', ins=[('x', (2.,), {'units': ub} if ub else {})], outs=[('o', (0.,), {})])
    if how == 0:
        root.add('s', s)
        root.add('a', a)
        root.connect('s.x', 'a.x')
    elif how == 1:
        root.add('a', a, promotes=['x'])
        root.add('s', s, promotes=['x'])
    else:
        root.add('s', s)
        root.add('a', a)
        root.add('b', b)
        root.connect('b.x', 'a.x')
        root.connect('s.x', 'b.x')
    expect = ua is None or ub is None or DIM[ua] == DIM[ub]
    ok, err = try_setup(prob)
    R.state([ua, ub, how])
    if verdict(R, ok, err, expect, '%s -> %s' % (ua, ub), 'units'):
        prob.run()
        R.step()
        f = 1.0
        if (ua, ub) == ('m', 'ft'):
            f = 1 / .3048
        elif (ua, ub) == ('ft', 'm'):
            f = .3048
        R.check(abs(a.seen['x'] - 4. * f) < 1e-9 * f, 'units:value', '%s %s %s' % (ua, ub, a.seen))
        if how == 2:
            R.check(abs(b.seen['x'] - 4. * f) < 1e-9 * f, 'units:value', '%s %s %s' % (ua, ub, b.seen))
        R.trace()


def run_u2(case, R):
    """two inputs without a source must agree on units (if both have any) and value"""
    from openmdao.api import Problem, Group
    _, ua, ub = case
    ua, ub = UN[ua], UN[ub]
    for how in (0, 1):
        for va, vb in ((2., 2.), (2., 3.)):
            prob = Problem()
            root = prob.root = Group()
            a = comp('a', ins=[('x', (va,), {'units': ua} if ua else {})], outs=[('o', (0.,), {})])
            b = comp('b', ins=[('x', (vb,), {'units': ub} if ub else {})], outs=[('p', (0.,), {})])
            if how:
                root.add('a', a, promotes=['*'])
                root.add('b', b, promotes=['*'])
                nm = 'x'
            else:
                root.add('a', a)
                root.add('b', b)
                root.connect('a.x', 'b.x')
                nm = 'b.x'
            ok, err = try_setup(prob)
            expect = va == vb and (ua == ub or ua is None or ub is None)
            R.state([ua, ub, va == vb, how])
            if verdict(R, ok, err, expect, '%s=%s %s=%s' % (ua, va, ub, vb), 'sourceless'):
                prob[nm] = 7.
                prob.run()
                R.check(a.seen['x'] == 7. == b.seen['x'], 'sourceless:value', '%s %s' % (a.seen, b.seen))
                R.trace()


def run_n(case, R):
    from openmdao.api import Problem, Group
    _, k, how = case
    s, t, good = NAMES[k]
    prob = Problem()
    root = prob.root = Group()
    g = root
    if how:
        g = root.add('g', Group())
    for n, c in (('s', comp('s', outs=[('y', (1.,), {}), ('z', (2.,), {})])),
                 ('a', comp('a', ins=[('x', (1.,), {})], outs=[('o', (0.,), {})])),
                 ('b', comp('b', ins=[('x', (1.,), {})], outs=[('o', (0.,), {})]))):
        g.add(n, c)
    if how == 1 and not good:
        root.connect(s, t)
    else:
        g.connect(s, t)
    ok, err = try_setup(prob)
    R.state([k, how])
    verdict(R, ok, err, bool(good), '%s -> %s' % (s, t), 'names')
    R.trace()
    if how:     # right names, wrong scope
        prob = Problem()
        root = prob.root = Group()
        g = root.add('g', Group())
        g.add('s', comp('s', outs=[('y', (1.,), {}), ('z', (2.,), {})]))
        g.add('a', comp('a', ins=[('x', (1.,), {})], outs=[('o', (0.,), {})]))
        g.add('b', comp('b', ins=[('x', (1.,), {})], outs=[('o', (0.,), {})]))
        root.connect(s, t)
        ok, err = try_setup(prob)
        verdict(R, ok, err, False, 'wrong scope %s -> %s' % (s, t), 'names')


def run_b(case, R):
    from openmdao.api import Problem, Group
    bad = BADIDX[case[1]]
    prob = Problem()
    root = prob.root = Group()
    root.add('s', comp('s', outs=[('y', (np.zeros(3),), {})]))
    root.add('a', comp('a', ins=[('x', (np.zeros(2),), {})], outs=[('o', (0.,), {})]))
    ok = True
    try:
        root.connect('s.y', 'a.x', src_indices=bad)
        prob.setup(check=False)
    except (TypeError, ValueError, RuntimeError, IndexError):
        ok = False
    R.check(not ok, 'index:accepted-nonint', '%r accepted' % (bad,))
    R.state(case)
    R.step()
    R.trace()
