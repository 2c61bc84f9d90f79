"""C30: model views report the model truthfully."""
from itertools import permutations, product
import contextlib
import io
import json
import os
import re
import shutil
import tempfile
import warnings
import numpy as np

PID = 'C30'
LEVEL = 'model_checking'
RULE = ('exhaustive enumeration of all directed graphs on up to 4 components x group trees x connection styles x orders: the tree, the connections and the '
        'cycle arrows of the model viewer data are compared with definitions over the graph; the data stored by recorders and the page made from the file are '
        'compared with those of the live problem; all connection kinds (shapes, indices, units, promotion, objects, loose inputs) x histories x choices of the '
        'root for the connection viewer, whose values are compared with what the components hold')
ASSUMPTIONS = ['values are compared after the model has run', 'the layout of the pages is open, only the data embedded in them is compared']
NOTE = 'components have one output and one input per edge, plus unconnected variables of several types'

NAMES = ['c', 'a', 'd', 'b']
TREES = {1: [[0], [[0]], [[[0]]]],
         2: [[0, 1], [[0], 1], [[0, 1]], [[0], [1]], [[[0], 1]]],
         3: [[0, 1, 2], [[0, 1], 2], [[0, 2], 1], [0, [1, 2]], [[0, [1]], 2], [[0], [1], [2]]],
         4: [[0, 1, 2, 3], [[0, 1], [2, 3]], [[0, 3], 1, 2], [0, [1, [2, 3]]]]}


def pairs(n):
    return [(i, j) for i in range(n) for j in range(n) if i != j]


def graph_of(n, g):
    return [e for k, e in enumerate(pairs(n)) if g >> k & 1]


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in (1, 2, 3):
        for g in range(1 << len(pairs(n))):
            out.append(['N', n, g, g + 1, list(range(len(TREES[n])))])
    for lo in range(0, 4096, 16):
        out.append(['N', 4, lo, lo + 16, [(lo // 16) % 4] if q else [0, 1, 2, 3]])
    for kind in ('sqlite', 'hdf5'):
        for n in (1, 2, 3):
            for g in range(1 << len(pairs(n))):
                if not q or n < 3 or g % 4 == 1:
                    out.append(['F', kind, n, g])
    for sk, how, un, pl, hist in product(sorted(SRC), sorted(HOW), range(len(UNITS)), range(len(PLACES)), range(len(HIST))):
        if legal(sk, how, un):
            out.append(['C', sk, how, un, pl, hist])
    for k in range(len(MULTI)):
        out.append(['M', k])
    return out


def run(case, R):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
            globals()['run_' + case[0].lower()](case, R)
    R.trace()


# ------------------------------------------------------------------ model viewer data
def comp_class():
    from openmdao.api import Component

    class Node(Component):
        def __init__(self, ins, out, log, name, state):
            super(Node, self).__init__()
            for i in ins:
                self.add_param(i, 0.)
            (self.add_state if state else self.add_output)(out, 0.)
            if name in 'ca':
                self.add_param('loose', np.zeros(2))
                self.add_output('text', 'abc', pass_by_obj=True)
            if name == 'd':
                self.add_output('arr', np.ones((2, 2)))
                self.add_param('num', 1, pass_by_obj=True)
            self.out, self.log, self.nm, self.state, self.ins = out, log, name, state, ins

        def solve_nonlinear(self, params, unknowns, resids):
            self.log.append(self.nm)
            unknowns[self.out] = .1 * sum(params[n] for n in self.ins) + 1.

        def apply_nonlinear(self, params, unknowns, resids):
            if self.state:
                resids[self.out] = unknowns[self.out] - .1 * sum(params[n] for n in self.ins) - 1.
    return Node


class Model(object):
    def __init__(self, n, g, tree, style, order, states):
        from openmdao.api import Problem, Group, ScipyGMRES
        self.edges, self.log, self.where = graph_of(n, g), [], {}
        self.p = Problem(root=Group())
        self.states = states
        Node = comp_class()
        self.groups = {}

        def build(grp, path, items):
            grp.ln_solver = ScipyGMRES()
            for k, it in enumerate(items):
                if isinstance(it, list):
                    name = 'g%d' % k
                    sub = Group()
                    grp.add(name, sub, promotes=['*'] if style == 'promote' else None)
                    self.groups[path + name] = sub
                    build(sub, path + name + '.', it)
                else:
                    nm = NAMES[it]
                    ins = [self.inp(s, it) for s, t in self.edges if t == it]
                    if style == 'promote':
                        ins = ['y_' + NAMES[s] for s, t in self.edges if t == it]
                    grp.add(nm, Node(ins, self.outp(it, style), self.log, nm, it in states), promotes=['y_*'] if style == 'promote' else None)
                    self.where[it] = path + nm
        build(self.p.root, '', tree)
        self.style = style
        if style != 'promote':
            for s, t in self.edges:
                self.p.root.connect(self.where[s] + '.y', self.where[t] + '.' + self.inp(s, t))
        if order:
            self.p.root.set_order(order)
        self.p.setup(check=False)
        self.p.run()
        self.ran = list(self.log)[:n]

    def inp(self, s, t):
        return 'i' + NAMES[s]

    def outp(self, i, style):
        return 'y_' + NAMES[i] if style == 'promote' else 'y'

    def conns(self):
        return [(self.where[s] + '.' + self.outp(s, self.style), self.where[t] + '.' + ('y_' + NAMES[s] if self.style == 'promote' else self.inp(s, t)), s, t)
                for s, t in self.edges]


def expected(m, n, order):
    """order: components in the order in which they run"""
    reach = dict((i, set()) for i in range(n))
    for s, t in m.edges:
        reach[s].add(t)
    for k in range(n):
        for i in range(n):
            if k in reach[i]:
                reach[i] |= reach[k]
    pos = dict((i, order.index(NAMES[i])) for i in range(n))
    out = {}
    for sv, tv, s, t in m.conns():
        arrows = []
        if s in reach[t]:
            lo, hi = sorted([pos[s], pos[t]])
            ring = [i for i in range(n) if i in reach[s] and s in reach[i] and lo <= pos[i] <= hi]
            arrows = sorted(m.where[a] + ' ' + m.where[b] for a, b in set(m.edges) if a in ring and b in ring and (a, b) != (s, t))
        out[tv] = (sv, arrows)
    return out


def check_tree(R, m, node, n, tag):
    """the tree lists every system and variable once, in the order of execution, with the right kinds"""
    seen, comps = {}, []

    def walk(nd, path):
        names = [c['name'] for c in nd['children']]
        R.check(len(set(names)) == len(names), 'tree:duplicate', [tag, path, names])
        for c in nd['children']:
            p = path + '.' + c['name'] if path else c['name']
            if c['type'] == 'subsystem':
                seen[p] = c['subsystem_type']
                if c['subsystem_type'] == 'component':
                    comps.append(c['name'])
                walk(c, p)
            else:
                seen[p] = (c['type'], c.get('implicit'), c['dtype'])
    R.check(node['name'] == 'root' and node['type'] == 'root' and node['subsystem_type'] == 'group', 'tree:root', [tag, node['name'], node['type']])
    walk(node, '')
    want = {}
    for i in range(n):
        w, nm = m.where[i], NAMES[i]
        want[w] = 'component'
        parts = w.split('.')
        for k in range(1, len(parts)):
            want['.'.join(parts[:k])] = 'group'
        want[w + '.' + m.outp(i, m.style)] = ('unknown', i in m.states, 'float')
        if nm in 'ca':
            want[w + '.loose'] = ('param', None, 'ndarray')
            want[w + '.text'] = ('unknown', False, 'str')
        if nm == 'd':
            want[w + '.arr'] = ('unknown', False, 'ndarray')
            want[w + '.num'] = ('param', None, 'int')
    for sv, tv, s, t in m.conns():
        want[tv] = ('param', None, 'float')
    R.check(seen == want, 'tree:content', lambda: [tag, 'missing', sorted(set(want) - set(seen)), 'extra', sorted(set(seen) - set(want)),
                                                  'wrong', [(k, seen[k], want[k]) for k in want if k in seen and seen[k] != want[k]]])
    R.check(comps == m.ran, 'tree:order', [tag, comps, m.ran])


def check_conns(R, m, lst, n, tag):
    want = expected(m, n, m.ran)
    got = {}
    for c in lst:
        R.check(c['tgt'] not in got, 'connections:twice', [tag, c['tgt']])
        got[c['tgt']] = (c['src'], c.get('cycle_arrows', []))
    R.check(dict((k, v[0]) for k, v in got.items()) == dict((k, v[0]) for k, v in want.items()), 'connections', lambda: [tag, got, want])
    for t in want:
        if t in got:
            R.check(got[t][1] == want[t][1], 'arrows', lambda: [tag, m.ran, t, got[t], want[t]])


def run_n(case, R):
    from openmdao.devtools.partition_tree_n2 import get_model_viewer_data
    _, n, lo, hi, trees = case
    for g in range(lo, hi):
        for t in trees:
            tree = TREES[n][t]
            flat = t == 0 and n < 4
            for style in ('connect', 'promote'):
                orders = [None]
                if flat and style == 'connect' and n < 4:
                    orders += [[NAMES[i] for i in o] for o in permutations(range(n))]
                for k, order in enumerate(orders):
                    states = [i for i in range(n) if (g + k + t + i) % 3 == 0]
                    m = Model(n, g, tree, style, order, states)
                    tag = [n, g, t, style, order]
                    d = get_model_viewer_data(m.p)
                    R.step()
                    json.dumps(d)
                    check_tree(R, m, d['tree'], n, tag)
                    check_conns(R, m, d['connections_list'], n, tag)
                    d2 = get_model_viewer_data(m.p.root)
                    R.check(d2 == d, 'root-or-problem', tag)
                    if any('cycle_arrows' in c for c in d['connections_list']):
                        R.note('models-with-arrows')
                    R.state(['N'] + tag)


# ------------------------------------------------------------------ files
def page_data(html):
    """the tree and the list of connections in a page"""
    dec = json.JSONDecoder()
    tree = conns = None
    for i in re.finditer(r'=\s*(?=[\[{])', html):
        try:
            v = dec.raw_decode(html[i.end():i.end() + 100000])[0]
        except ValueError:
            continue
        if isinstance(v, dict) and 'subsystem_type' in v:
            tree = v
        elif isinstance(v, list) and tree is not None and conns is None:
            conns = v
    return [] if conns is None else [tree, conns]


def run_f(case, R):
    from openmdao.api import view_model, SqliteRecorder
    from openmdao.recorders.hdf5_recorder import HDF5Recorder
    from openmdao.devtools.partition_tree_n2 import get_model_viewer_data
    _, kind, n, g = case
    d = tempfile.mkdtemp(prefix='c30')
    try:
        m = Model(n, g, TREES[n][g % len(TREES[n])], ('connect', 'promote')[g % 2], None, [])
        f = os.path.join(d, 'file')
        rec = SqliteRecorder(f) if kind == 'sqlite' else HDF5Recorder(f)
        rec.options['record_metadata'] = True
        rec.options['record_unknowns'] = False
        rec.options['record_params'] = False
        m.p.driver.add_recorder(rec)
        m.p.setup(check=False)
        del m.log[:]
        m.p.run()
        m.ran = list(m.log)[:n]
        m.p.cleanup()
        live = get_model_viewer_data(m.p)
        pages = []
        for src in (f, m.p):
            html = os.path.join(d, 'page.html')
            view_model(src, outfile=html, show_browser=False, offline=False)
            data = page_data(open(html).read())
            R.step()
            R.check(len(data) == 2, 'page:data', [case, len(data)])
            pages.append(data)
        R.check(pages[0] == pages[1], 'page:file-and-problem', case)
        R.check(pages[1] == [json.loads(json.dumps(live['tree'])), json.loads(json.dumps(live['connections_list']))], 'page:problem', case)
        if pages[0] and len(pages[0]) == 2:
            check_tree(R, m, pages[0][0], n, case)
            check_conns(R, m, pages[0][1], n, case)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    R.state(case)


# ------------------------------------------------------------------ connection viewer
SRC = {'s': 2.25, '1': np.array([1.5]), '3': np.array([1., -2.5, 40.]), '22': np.array([[1., 2.], [3.5, -4.]]), '23': np.arange(6.).reshape(2, 3) * 1.25 - 2.,
       'o': 'some text', 'l': [1, 2]}
# target shape and source indices
HOW = {'all': None, 'rev': [1, 0], 'last': [1], 'dup': [0, 0, 1], 'far': [5, 3], 'grid': ([0, 1, 2, 3], (2, 2))}
UNITS = [('', ''), ('m', 'cm'), ('degC', 'degF'), ('m', '')]
PLACES = [('p', 'c', False), ('p', 'g.c', False), ('g.p', 'g.c', False), ('g.p', 'h.c', False), ('p', 'c', True), ('g.p', 'g.c', True), ('p', 'g.c', True)]
HIST = ['run', 'setrun', 'runset']


def legal(sk, how, un):
    if sk in 'ol':
        return how == 'all' and un == 0
    n = np.size(SRC[sk])
    if how == 'all':
        return True
    i = HOW[how][0] if isinstance(HOW[how], tuple) else HOW[how]
    return sk != 's' and n > max(i) and n > 1


def view(root, R, tag, **kw):
    from openmdao.api import view_connections
    d = tempfile.mkdtemp(prefix='c30')
    try:
        f = os.path.join(d, 'x.html')
        view_connections(root, outfile=f, show_browser=False, **kw)
        html = open(f).read()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    R.step()
    i = html.index('var data = ') + len('var data = ')
    return json.JSONDecoder().raw_decode(html[i:])[0]


def numbers(text):
    return [float(t) for t in re.findall(r'-?\d+\.?\d*(?:e[+-]?\d+)?', text)]


def same_text(text, val):
    if isinstance(val, (float, int, np.ndarray)) and not isinstance(val, bool):
        got, want = numbers(text), np.ravel(np.array(val, dtype=float))
        return len(got) == len(want) and all(abs(a - b) <= 2e-6 * (1. + abs(b)) for a, b in zip(got, want))
    return text == str(val)


def judge_conns(R, prob, conns, loose, unused, units, proms, tag, inside=''):
    """conns: {target: source}; loose: inputs without source; unused: outputs nobody reads"""
    from openmdao.api import Component
    held = {}
    for c in prob.root.components(recurse=True):
        for n in c.params:
            held[c.pathname + '.' + n] = c.params[n]
        for n in c.unknowns:
            held[c.pathname + '.' + n] = c.unknowns[n]

    def ancestors(names):
        out = set()
        for v in names:
            ps = v.split('.')
            out.update('.'.join(ps[:k]) for k in range(len(ps)))
        return out
    roots = [('problem', prob, ''), ('root', prob.root, '')]
    for s in prob.root.subgroups(recurse=True):
        roots.append((s.pathname, s, s.pathname + '.'))
    for label, root, pre in roots:
        t2 = [tag, label]
        d = view(root, R, t2)
        cs = dict((t, s) for t, s in conns.items() if t.startswith(pre))
        ls = [t for t in loose if t.startswith(pre)]
        us = [s for s in unused if s.startswith(pre)]
        got = {}
        for s, ts in d['src2tgts']:
            for t in ts:
                R.check(t not in got, 'viewer:twice', [t2, t])
                got[t] = s
        want = dict(cs)
        want.update((t, 'NO CONNECTION') for t in ls)
        R.check(got == want, 'viewer:connections', lambda: [t2, got, want])
        for t in list(cs) + ls + us:
            R.check(t in d['vals'] and same_text(d['vals'][t], held[t]), 'viewer:value', lambda: [t2, t, d['vals'].get(t), repr(held[t])])
        for v, u in units.items():
            if v.startswith(pre):
                R.check(d['units'].get(v) == u, 'viewer:units', [t2, v, d['units'].get(v), u])
        if pre == '':
            R.check(sorted(d['noconn_srcs']) == sorted(us), 'viewer:unused', [t2, d['noconn_srcs'], us])
            R.check(all(d['proms'].get(v) == w for v, w in proms.items()), 'viewer:promoted', [t2, d['proms'], proms])
            for k, names in (('src_systems', conns.values()), ('tgt_systems', conns)):
                g = [x['name'] for x in d[k]]
                R.check(sorted(g) == sorted(ancestors(names) | {'NO CONNECTION'}), 'viewer:' + k, [t2, g, sorted(ancestors(names))])


def run_c(case, R):
    from openmdao.api import Problem, Group, Component, IndepVarComp
    _, sk, how, un, pl, hist = case
    src, tgt, prom = PLACES[pl]
    val = SRC[sk]
    hw = HOW[how]
    idx, shape = hw if isinstance(hw, tuple) else (hw, None)
    if idx is None:
        tv = np.zeros(np.shape(val)) if isinstance(val, np.ndarray) else val
        if isinstance(val, float):
            tv = 0.
    else:
        tv = np.zeros(len(idx)).reshape(shape or (len(idx),))
    obj = sk in 'ol'
    su, tu = UNITS[un]

    class C(Component):
        def __init__(self):
            super(C, self).__init__()
            kw = {'units': tu} if tu else {}
            if obj:
                kw['pass_by_obj'] = True
            self.add_param('x', tv, **kw)
            self.add_param('free', np.array([1., 2.]), units='km')
            self.add_param('num', 4.5)
            self.add_output('y', np.zeros(2))

        def solve_nonlinear(self, p, u, r):
            u['y'] = p['free'] * p['num']
    prob = Problem(root=Group())
    groups = {}

    def at(path, comp, promotes):
        ps = path.split('.')
        g = prob.root
        for k in range(1, len(ps)):
            key = '.'.join(ps[:k])
            if key not in groups:
                groups[key] = g.add(ps[k - 1], Group(), promotes=['x'] if prom and idx is None else None)
            g = groups[key]
        g.add(ps[-1], comp, promotes=promotes)
    kw = {'units': su} if su else {}
    if obj:
        kw['pass_by_obj'] = True
    byname = prom and idx is None
    at(src, IndepVarComp([('x', val, kw), ('w', 3., {})]), ['x'] if byname else None)
    at(tgt, C(), ['x'] if byname else ['free'] if prom else None)
    S, T = src + '.x', tgt + '.x'
    if not byname:
        prob.root.connect(S, T, **({} if idx is None else {'src_indices': idx}))
    prob.setup(check=False)

    def pname(v):
        return prob.root._sysdata.to_prom_name[v]
    name = S if not byname else 'x'
    free = tgt + '.free'
    if prom and not byname:
        free = '.'.join(tgt.split('.')[:-1] + ['free'])
    if hist in (0, 2):
        prob.run()
    if hist in (1, 2):
        if not obj:
            prob[name] = np.array(val) * 3. + 1. if isinstance(val, np.ndarray) else val * 3. + 1.
        prob[tgt + '.num'] = 7.25
        prob[free] = np.array([5., -6.])
        prob.run()
    proms = {S: name, tgt + '.y': tgt + '.y'}
    if byname:
        proms[T] = 'x'
    judge_conns(R, prob, {T: S}, [tgt + '.free', tgt + '.num'], [src + '.w', tgt + '.y'],
                {S: su, T: tu, tgt + '.free': 'km', tgt + '.num': '', src + '.w': ''}, proms, case)
    R.state(case)


# several targets per source, groups of groups, precision and filters
MULTI = [dict(n=n, g=g, t=t, style=s) for n in (2, 3) for g in range(1, 1 << len(pairs(n))) for t in range(len(TREES[n])) for s in ('connect', 'promote')]


def run_m(case, R):
    c = MULTI[case[1]]
    m = Model(c['n'], c['g'], TREES[c['n']][c['t']], c['style'], None, [])
    from openmdao.api import NLGaussSeidel
    for g in m.p.root.subgroups(recurse=True, include_self=True):
        g.nl_solver = NLGaussSeidel()
        g.nl_solver.options['maxiter'] = 60
        g.nl_solver.options['atol'] = 1e-14
        g.nl_solver.options['rtol'] = 1e-14
        g.nl_solver.options['iprint'] = -1
    m.p.setup(check=False)
    m.p.run()
    m.p.run()
    conns = dict((tv, sv) for sv, tv, s, t in m.conns())
    loose, unused = [], []
    for i in range(c['n']):
        w = m.where[i]
        if NAMES[i] in 'ca':
            loose.append(w + '.loose')
            unused.append(w + '.text')
        if NAMES[i] == 'd':
            loose.append(w + '.num')
            unused.append(w + '.arr')
        if not any(s == i for s, t in m.edges):
            unused.append(w + '.' + m.outp(i, m.style))
    judge_conns(R, m.p, conns, loose, unused, {}, {}, case)
    for kw in ({'src_filter': 'abc'}, {'tgt_filter': 'x.y'}, {'precision': 3}):
        d = view(m.p, R, case, **kw)
        for k in ('src_filter', 'tgt_filter'):
            R.check(d[k] == kw.get(k, ''), 'viewer:filter', [case, k, d[k]])
    R.state(case)
