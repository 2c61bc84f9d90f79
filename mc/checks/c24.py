"""C24: execution order and setup report."""
from itertools import permutations, product, combinations
import contextlib
import io
import json
import os
import subprocess
import sys
import warnings
import numpy as np

PID = 'C24'
LEVEL = 'model_checking'
RULE = ('exhaustive enumeration of all directed graphs on up to 4 (5 thorough) subsystems, declaration orders, user orders, group trees, connection styles '
        'and sequences of setups: the order in which the components of the real model run, the broken edges and every list of the setup report are compared '
        'with definitions over the graph; determinism by repeating under other hash seeds')
ASSUMPTIONS = ['which edges of a cycle are broken is open, as is the report of subsystems of one cycle as out of order', 'parallel groups have no order']
NOTE = 'components have one output and one input per edge (two for some edges)'

NAMES = ['c', 'a', 'd', 'b', 'e']


def pairs(n):
    return [(i, j) for i in range(n) for j in range(n) if i != j]


def graph_of(n, g):
    return [e for k, e in enumerate(pairs(n)) if g >> k & 1]


# nestings: tree of leaves, by index; lists are groups
TREES = {2: [[[0], 1], [[0, 1]], [[0], [1]]],
         3: [[[0, 1], 2], [[0, 2], 1], [0, [1, 2]], [[0, [1]], 2], [[0], [1], [2]], [[[0, 1, 2]]]],
         4: [[[0, 1], [2, 3]], [[0, 2], [1, 3]], [[0, 1, 2], 3], [0, [1, [2, 3]]], [[[0, 3], 1], 2], [[0, 3], 1, 2]]}


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in (1, 2, 3):
        for g in range(1 << len(pairs(n))):
            out.append(['full', n, g])
    step = 16
    for lo in range(0, 4096, step):
        out.append(['four', lo, lo + step, 0 if q else 1])
    for t in range(len(TREES[4])):
        for lo in range(0, 4096, 64):
            if not q or (lo // 64 + t) % 3 == 0:
                out.append(['tree', 4, t, lo, lo + 64])
    for n in (2, 3):
        for t in range(len(TREES[n])):
            out.append(['tree', n, t, 0, 1 << len(pairs(n))])
    for g in range(64):
        out.append(['grow', g])
    for seed in (1, 2) if q else (1, 2, 3, 4, 5):
        for lo in range(0, 4096, 512):
            out.append(['seed', seed, lo, lo + 512])
    for g in range(64):
        out.append(['solver', g])
    out.append(['orders'])
    for k in range(16):
        out.append(['report', k])
    if not q:
        for lo in range(0, 1 << 20, 1 << 11):
            out.append(['five', lo, lo + (1 << 11)])
    return out


def run(case, R):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
            globals()['run_' + case[0]](case, R)
    R.trace()


_cls = {}


def comp_class():
    from openmdao.api import Component
    if Component not in _cls:
        class Node(Component):
            def __init__(self, ins, out, log, name, extra=0, size=1):
                super(Node, self).__init__()
                v = 0. if size == 1 else np.zeros(size)
                for i in ins:
                    self.add_param(i, v)
                for k in range(extra):
                    self.add_param('loose%d' % k, v)
                if out:
                    self.add_output(out, v)
                self.out, self.log, self.nm = out, log, name

            def solve_nonlinear(self, params, unknowns, resids):
                self.log.append(self.nm)
                if self.out:
                    unknowns[self.out] = .1 * sum(params[n] for n in params) + 1.
        _cls[Component] = Node
    return _cls[Component]


class M(object):
    def __init__(self, n, edges, decl=None, tree=None, style='connect', order=None, double=(), gmres=True, extra=(), isolated=True):
        from openmdao.api import Problem, Group, ScipyGMRES
        self.n, self.edges, self.log, self.style = n, list(edges), [], style
        self.p = Problem(root=Group())
        self.root = self.p.root
        self.groups = {'': self.root}
        self.where = {}
        Node = comp_class()
        self.tree = tree if tree is not None else list(range(n))
        decl = list(decl) if decl is not None else list(range(n))
        self.gmres = gmres

        def build(grp, path, items):
            if gmres:
                grp.ln_solver = ScipyGMRES()
            for k, it in enumerate(items):
                if isinstance(it, list):
                    name = 'g%d' % k
                    sub = Group()
                    grp.add(name, sub, **({'promotes': ['*']} if style == 'promote' else {}))
                    self.groups[path + name] = sub
                    build(sub, path + name + '.', it)
                else:
                    i = it
                    nm = NAMES[i]
                    ins = ['y_' + NAMES[s] for s, t in edges if t == i] if style == 'promote' else \
                          ['i' + NAMES[s] + d for s, t in edges if t == i for d in (('', '2') if (s, t) in double else ('',))]
                    c = Node(ins, 'y_' + nm if style == 'promote' else 'y', self.log, nm, extra=1 if i in extra else 0)
                    grp.add(nm, c, **({'promotes': ['y_*']} if style == 'promote' else {}))
                    self.where[i] = path + nm
        build(self.root, '', [decl[i] if not isinstance(i, list) and tree is None else i for i in self.tree])
        for s, t in edges:
            if style != 'promote':
                self.connect(s, t, '')
                if (s, t) in double:
                    self.connect(s, t, '2')
        if order is not None:
            self.root.set_order(order)

    def connect(self, s, t, d):
        self.root.connect(self.where[s] + '.y', self.where[t] + '.i' + NAMES[s] + d)

    def setup(self, check=False):
        self.out = io.StringIO()
        self.checks = self.p.setup(check=check, out_stream=self.out)
        return self

    def children(self, path):
        """the direct children of a group and the edges between them"""
        grp = self.groups[path]
        names = [s.name for s in grp.subsystems()]
        pre = path + '.' if path else ''

        def child(i):
            w = self.where[i]
            return w[len(pre):].split('.')[0] if w.startswith(pre) else None
        es = set()
        for s, t in self.edges:
            a, b = child(s), child(t)
            if a and b and a != b:
                es.add((a, b))
        return names, es


def reach(names, es):
    r = dict((n, set()) for n in names)
    for a, b in es:
        r[a].add(b)
    for k in names:
        for i in names:
            if k in r[i]:
                r[i] |= r[k]
    return r


def judge(R, m, tag, user=None, check=True):
    """order, execution and report of a model that was set up with check=True"""
    p = m.p
    del m.log[:]
    p.run()
    ran = list(m.log)
    expect = []

    def flatten(path):
        for s in m.groups[path].subsystems():
            q = (path + '.' if path else '') + s.name
            if q in m.groups:
                flatten(q)
            else:
                expect.append(s.name)
    flatten('')
    R.check(ran == expect, 'execution', [tag, ran, expect])
    cycles, ooo = [], {}
    for path, grp in m.groups.items():
        names, es = m.children(path)
        r = reach(names, es)
        pos = dict((n, k) for k, n in enumerate(names))
        scc = {}
        for n in names:
            scc[n] = frozenset([n] + [k for k in names if k in r[n] and n in r[k]])
        cyc = set(s for s in scc.values() if len(s) > 1)
        if cyc:
            cycles.append(sorted(sorted(s, key=lambda k: pos[k]) for s in cyc))
        auto, broken = grp.list_auto_order()
        R.check(sorted(auto) == sorted(names), 'auto-order-members', [tag, path, auto, names])
        pre = path + '.' if path else ''
        bs = set((a[len(pre):], b[len(pre):]) for a, b in broken)
        R.check(bs <= es and len(bs) == len(broken), 'broken-edges', [tag, path, broken])
        R.check(all(scc[a] == scc[b] for a, b in bs), 'broken-outside-cycle', [tag, path, broken])
        R.check(all(auto.index(a) < auto.index(b) for a, b in es - bs), 'auto-order', [tag, path, auto, sorted(es), sorted(bs)])
        R.check(bool(bs) == bool(cyc), 'broken-edges', [tag, path, broken])
        # every broken edge was in the way of the order
        if user is None or path:
            R.check(names == auto, 'auto-order-used', [tag, path, names, auto])
        else:
            R.check(names == list(user), 'user-order', [tag, names, user])
        ooo[path] = (names, es, r, scc, pos)
    if not check:
        return
    got = [sorted(sorted(s, key=lambda k: s.index(k)) for s in c) for c in m.checks['cycles']]
    R.check(sorted(got) == sorted(cycles), 'report:cycles', [tag, m.checks['cycles'], cycles])
    text = m.out.getvalue()
    for c in m.checks['cycles']:
        R.check(str(c) in text, 'report:cycles-text', [tag, text])
    rep = dict((path, dict((n, set(a)) for n, a in v)) for path, v in m.checks['out_of_order'])
    R.check(len(rep) == len(m.checks['out_of_order']), 'report:order', [tag, m.checks['out_of_order']])
    for path, (names, es, r, scc, pos) in ooo.items():
        have = set((n, a) for n, after in rep.pop(path, {}).items() for a in after)
        may = set((n, a) for a in names for n in r[a] if n != a and pos[n] < pos[a])
        must = set((b, a) for a, b in es if scc[a] != scc[b] and pos[b] < pos[a])
        if all(len(s) == 1 for s in scc.values()):
            must = may
        R.check(must <= have <= may, 'report:order', [tag, path, sorted(have), sorted(must), sorted(may)])
        if must:
            R.check(('has the following out-of-order subsystems' in text) and any(n in text for n, a in must), 'report:order-text', [tag, text])
    R.check(not rep, 'report:order', [tag, rep])
    # inputs read before their source has run
    want = set()
    for s, t in m.edges:
        if expect.index(NAMES[s]) > expect.index(NAMES[t]):
            want.update(k for k in p.root.connections if k.startswith(m.where[t] + '.') and p.root.connections[k][0].startswith(m.where[s] + '.'))
    R.check(sorted(m.checks['ubcs']) == sorted(want), 'report:early-inputs', [tag, m.checks['ubcs'], sorted(want)])


def run_full(case, R):
    _, n, g = case
    edges = graph_of(n, g)
    for decl in permutations(range(n)):
        for style in ('connect', 'promote', 'double'):
            kw = {'style': 'promote' if style == 'promote' else 'connect', 'double': set(edges[::2]) if style == 'double' else ()}
            for user in [None] + ([[NAMES[i] for i in o] for o in permutations(range(n))] if style != 'double' else []):
                m = M(n, edges, decl, order=user, **kw).setup(True)
                judge(R, m, [decl, style, user], user)
                R.state([case, decl, style, user])
                R.step()


def run_four(case, R):
    _, lo, hi, every = case
    for g in range(lo, hi):
        edges = graph_of(4, g)
        for decl in permutations(range(4)):
            if not every and decl not in ((0, 1, 2, 3), (3, 2, 1, 0)):
                continue
            m = M(4, edges, decl, double=set(edges[g % 3::3])).setup(True)
            judge(R, m, [g, decl])
            R.step()
        user = [NAMES[i] for i in ((0, 1, 2, 3), (2, 0, 3, 1))[g % 2]]
        m = M(4, edges, order=user, style='connect' if g % 5 else 'promote').setup(True)
        judge(R, m, [g, 'user'], user)
        R.state([case, g])


def run_five(case, R):
    _, lo, hi = case
    for g in range(lo, hi):
        edges = graph_of(5, g)
        m = M(5, edges)
        m.setup(True)
        judge(R, m, [g])
        R.state([5, g])
        R.step()


def run_tree(case, R):
    _, n, t, lo, hi = case
    for g in range(lo, hi):
        edges = graph_of(n, g)
        for style in ('connect', 'promote'):
            m = M(n, edges, tree=TREES[n][t], style=style, double=set(edges[1::2]) if style == 'connect' else ()).setup(True)
            judge(R, m, [g, style])
            R.state([n, t, g, style])
            R.step()


def run_grow(case, R):
    """connections added between setups, and orders set between setups"""
    g = case[1]
    edges = graph_of(3, g)
    for later in combinations(edges, max(0, len(edges) - 2)):
        first = [e for e in edges if e not in later]
        for ops in (['auto', 'auto'], ['auto', 'user'], ['user', 'user'], ['auto', 'add']):
            m = Grown(3, edges, first)
            user = None
            if ops[0] == 'user':
                user = [NAMES[i] for i in (2, 0, 1)]
                m.root.set_order(user)
            m.setup(True)
            m.edges = list(first)
            judge(R, m, [g, first, ops, 1], user)
            for s, t in later:
                m.connect(s, t, '')
            m.edges = list(edges)
            if ops[1] == 'user':
                user = [NAMES[i] for i in (1, 2, 0)]
                m.root.set_order(user)
            elif ops[1] == 'add':
                m.root.add('z', comp_class()([], 'y', m.log, 'z'))
            m.setup(True)
            judge(R, m, [g, first, ops, 2], user)
            R.state([g, first, ops])
            R.step()


def Grown(n, edges, first):
    class G(M):
        def connect(self, s, t, d):
            if self.ready or (s, t) in first:
                M.connect(self, s, t, d)
        ready = False
    m = G(n, edges)
    m.ready = True
    return m


def orders_of(lo, hi):
    out = []
    for g in range(lo, hi):
        m = M(4, graph_of(4, g), style='promote' if g % 2 else 'connect').setup()
        o, b = m.root.list_auto_order()
        out.append([o, sorted(map(list, b))])
    return out


def run_seed(case, R):
    _, seed, lo, hi = case
    mine = orders_of(lo, hi)
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c',
                        'import json, mc.checks.c24 as c; r = c.orders_of(%d, %d); print("RESULT " + json.dumps(r))' % (lo, hi)],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    got = [l for l in r.stdout.decode().splitlines() if l.startswith('RESULT ')]
    if not R.check(len(got) == 1, 'seed:failed', r.stderr.decode()[-300:]):
        return
    for g, a, b in zip(range(lo, hi), mine, json.loads(got[0][7:])):
        R.check(a == b, 'not-deterministic', [g, a, b])
        R.state([g, seed])
        R.step()


def run_solver(case, R):
    """cycles without an iterative linear solver are refused, and only those"""
    g = case[1]
    edges = graph_of(3, g)
    for tree in [None] + TREES[3]:
        m = M(3, edges, tree=tree, gmres=False)
        bad = []
        for path in m.groups:
            names, es = m.children(path)
            r = reach(names, es)
            if any(n in r[n] for n in names):
                bad.append(path)
        try:
            m.setup()
            err = None
        except RuntimeError as e:
            err = str(e)
        if R.check((err is not None) == bool(bad), 'solver:cycle', [tree, edges, bad, err]) and bad:
            for path in m.groups:
                R.check(("Group '%s' has a LinearGaussSeidel" % path in err) == (path in bad), 'solver:group', [tree, edges, bad, err])
        R.state([case, tree])
        R.step()


def run_orders(case, R):
    """orders that are no permutation are rejected and leave the order alone"""
    names = ['a', 'b', 'c', 'd']
    for n in (1, 2, 3):
        have = [NAMES[i] for i in range(n)]
        for L in range(0, n + 2):
            for o in product(names + ['zz', ''] if n < 3 else names, repeat=L):
                for setup in (False, True):
                    m = M(n, [])
                    if setup:
                        m.setup()
                    before = [s.name for s in m.root.subsystems()]
                    good = sorted(o) == sorted(have)
                    try:
                        m.root.set_order(list(o))
                        err = None
                    except ValueError as e:
                        err = str(e)
                    except Exception as e:
                        R.fail('orders:%s' % type(e).__name__, [o, str(e)])
                        continue
                    if not R.check((err is None) == good, 'orders:accepted' if err is None else 'orders:refused', [have, o, err]):
                        continue
                    now = [s.name for s in m.root.subsystems()]
                    R.check(now == (list(o) if good else before), 'orders:kept', [have, o, now])
                    if not good:
                        for x in set(o) ^ set(have):
                            R.check(x in err, 'orders:message', [o, err])
                        m.setup()
                        m.p.run()
                        R.check(sorted(m.log) == sorted(have), 'orders:kept', [o, m.log])
                    else:
                        try:
                            m.root.add('late', comp_class()([], 'y', [], 'late'))
                            R.fail('orders:add-after', o)
                        except RuntimeError:
                            pass
                        m.setup()
                        m.p.run()
                        R.check(m.log == list(o), 'orders:followed', [o, m.log])
                    R.state([n, o, setup])
                    R.step()


# ------------------------------------------------------------------ the other lists of the report
def run_report(case, R):
    """every small model over kinds of components and connections: unconnected inputs, components without outputs or connections, recorders, unmarked objects"""
    from openmdao.api import Problem, Group, IndepVarComp, InMemoryRecorder, ParallelGroup, ScipyOptimizer, Component
    Node = comp_class()
    k = case[1]
    kinds = ['indep', 'plain', 'sink', 'loose', 'source']
    for n, three in enumerate(product(kinds, repeat=3)):
        if n % 16 != k:
            continue
        for conn in range(8):
            for wrap in (None, 'group', 'promote', 'parallel'):
                p = Problem(root=Group())
                root = p.root
                grp = root if wrap is None else root.add('g', ParallelGroup() if wrap == 'parallel' else Group(), **({'promotes': ['*']} if wrap == 'promote' else {}))
                path = '' if wrap is None else 'g.'
                log = []
                spec = []
                for i, kind in enumerate(three):
                    nm = 'k%d' % i
                    prom = wrap == 'promote' and i == 1
                    ins = {'indep': [], 'plain': ['x'], 'sink': ['x'], 'loose': ['x', 'w'], 'source': []}[kind]
                    outs = [] if kind == 'sink' else ['y']
                    if kind == 'indep':
                        c = IndepVarComp('y', 1.)
                    else:
                        c = Node(ins, outs[0] if outs else None, log, nm)
                    grp.add(nm, c, **({'promotes': ['*']} if prom else {}))
                    spec.append((nm, ins, outs, prom))
                connected = set()
                comps = set()
                edges = []
                for b, (s, t) in enumerate(((0, 1), (1, 2), (0, 2))):
                    if conn >> b & 1 and spec[s][2] and spec[t][1] and (path + spec[t][0], 'x') not in connected:
                        nm = lambda i, v: (v if spec[i][3] else spec[i][0] + '.' + v)
                        pre = '' if wrap in (None, 'promote') else 'g.'
                        root.connect(pre + nm(s, 'y'), pre + nm(t, 'x'))
                        connected.add((path + spec[t][0], 'x'))
                        comps.update([path + spec[s][0], path + spec[t][0]])
                rec = conn % 4
                recorder = InMemoryRecorder()
                if rec == 1:
                    p.driver.add_recorder(recorder)
                elif rec == 2:
                    root.nl_solver.add_recorder(recorder)
                elif rec == 3:
                    grp.ln_solver.add_recorder(recorder)
                out = io.StringIO()
                try:
                    c = p.setup(check=True, out_stream=out)
                except Exception as e:
                    R.fail('report:%s' % type(e).__name__, [three, conn, wrap, str(e)])
                    continue
                text = out.getvalue()
                tag = [three, conn, wrap]
                loose, nounk = [], []
                for nm, ins, outs, prom in spec:
                    for v in ins:
                        if (path + nm, v) not in connected:
                            loose.append(('' if wrap == 'promote' else path) + ('' if prom else nm + '.') + v)
                    if not outs:
                        nounk.append(path + nm)
                R.check(sorted(c['dangling_params']) == sorted(loose), 'report:unconnected', [tag, c['dangling_params'], loose])
                R.check(all(n in text for n in loose) and ('no associated unknowns' in text) == bool(loose), 'report:unconnected-text', [tag, text])
                R.check(sorted(c['no_unknown_comps']) == sorted(nounk) and ('no unknowns:' in text) == bool(nounk), 'report:no-outputs', [tag, c['no_unknown_comps'], nounk])
                none = [path + s[0] for s in spec if path + s[0] not in comps]
                R.check(sorted(c['no_connect_comps']) == sorted(none) and ('have no connections:' in text) == bool(none), 'report:no-connections', [tag, c['no_connect_comps'], none])
                R.check(len(c['recorders']) == (rec > 0) and ('No recorders' in text) == (rec == 0), 'report:recorders', [tag, rec])
                R.check(c['mpi'] == (['g'] if wrap == 'parallel' else []) and ('not running under MPI' in text) == (wrap == 'parallel'), 'report:parallel', [tag, c['mpi']])
                R.check(c['cycles'] == [] and (c['out_of_order'] == [] or wrap == 'parallel'), 'report:order', [tag, c['cycles'], c['out_of_order']])
                again = p.check_setup(io.StringIO())
                R.check(sorted(again['dangling_params']) == sorted(loose), 'report:again', tag)
                R.state(tag)
                R.step()
