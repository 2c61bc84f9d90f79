"""C26: pass-by-object values and file references."""
from itertools import product, permutations
import contextlib
import io
import os
import shutil
import tempfile
import warnings
import numpy as np

PID = 'C26'
LEVEL = 'model_checking'
RULE = ('exhaustive enumeration of small models mixing numeric and object connections, group trees, promotion patterns, value kinds, approximated systems '
        'and all sequences of set, mutate, run, differentiate and setup calls up to a depth: what every consumer receives, the numbers around it, derivatives, '
        'and vector sizes are compared with direct evaluation; all file names, directories, flags and contents for file references, with the bytes of the '
        'file of the producer as oracle')
ASSUMPTIONS = ['an object that depends on a number is a constant for analytic derivatives and varies in what is differenced as a whole',
               'objects inside parallel groups that also hold their source, and objects changed in place by components, are left open']
NOTE = 'derivatives by differences are compared to 1e-4'


class Obj(object):
    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Obj) and self.n == other.n

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'Obj(%r)' % (self.n,)


KINDS = {
    'str': (lambda n: 'v%r' % n, lambda v: float(v[1:]), None),
    'int': (lambda n: int(n), lambda v: float(v), None),
    'bool': (lambda n: bool(int(n) % 2), lambda v: float(v), None),
    'list': (lambda n: [n, 'a'], lambda v: v[0], lambda v, n: v.__setitem__(0, n)),
    'tuple': (lambda n: (n, 'a'), lambda v: v[0], None),
    'dict': (lambda n: {'n': n, 2: []}, lambda v: v['n'], lambda v, n: v.__setitem__('n', n)),
    'set': (lambda n: {n}, lambda v: list(v)[0], None),
    'obj': (lambda n: Obj(n), lambda v: v.n, lambda v, n: setattr(v, 'n', n)),
    'ints': (lambda n: np.array([int(n), 2]), lambda v: float(v[0]), lambda v, n: v.__setitem__(0, n)),
    'floats': (lambda n: np.array([n, 1.5]), lambda v: v[0], lambda v, n: v.__setitem__(0, n)),
    'float': (lambda n: float(n), lambda v: v, None),
    'strs': (lambda n: np.array(['%r' % n, 'b']), lambda v: float(v[0]), None),
    'none': (lambda n: None, lambda v: 0., None),
    'empty': (lambda n: [], lambda v: 0., None),
    'func': (lambda n: (lambda: n), lambda v: v(), None),
}
SMOOTH = ('obj', 'list', 'floats', 'dict', 'float')
FLAG = ('floats', 'float')          # numbers that have to be marked


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype.kind == b.dtype.kind and np.array_equal(a, b)
    if type(a) is not type(b):
        return False
    return a is b or a == b


# ------------------------------------------------------------------ components

def classes():
    from openmdao.core.component import Component

    class Node(Component):
        """y = (1 + w) (sum of x) + w ; s = object with payload 2 * (sum of object payloads) + dep * (sum of x) + c"""

        def __init__(self, name, nx, np_, kind, c=1., dep=0., out=True, mark=True, log=None, pre=''):
            super(Node, self).__init__()
            self.tag, self.kind, self.c, self.dep, self.out, self.log = name, kind, c, dep, out, log
            self.xs = [pre + 'x%d' % i for i in range(nx)]
            self.ps = [pre + 'p%d' % i for i in range(np_)]
            kw = {'pass_by_obj': True} if mark or kind in FLAG else {}
            for i in self.xs:
                self.add_param(i, 1.)
            for i in self.ps:
                self.add_param(i, KINDS[kind][0](0.), **kw)
            self.y, self.s = pre + 'y', pre + 's'
            self.add_output(self.y, 0.)
            if out:
                self.add_output(self.s, KINDS[kind][0](0.), **kw)

        def weights(self, params):
            return sum(KINDS[self.kind][1](params[p]) for p in self.ps)

        def solve_nonlinear(self, params, unknowns, resids):
            w = self.weights(params)
            t = sum(params[x] for x in self.xs)
            unknowns[self.y] = (1. + .25 * w) * t + .5 * w
            if self.out:
                v = 2. * w + self.c
                if self.dep:
                    v = v + self.dep * t
                unknowns[self.s] = KINDS[self.kind][0](v)
            if self.log is not None:
                self.log.append((self.tag, [params[p] for p in self.ps]))

        def linearize(self, params, unknowns, resids):
            w = self.weights(params)
            return dict(((self.y, x), np.array([[1. + .25 * w]])) for x in self.xs)

    return Node


# graph: nodes 0..2, object edges, numeric edges; node 0 gets x from the indep, and o from the indep
GRAPHS = [([(0, 1), (0, 2)], [(0, 1), (1, 2)]), ([(0, 1), (1, 2)], [(0, 2)]), ([(0, 1), (0, 2), (1, 2)], [(0, 1), (0, 2), (1, 2)]), ([(0, 2)], [(0, 1), (1, 2)]), ([(1, 2)], [(0, 1), (0, 2)]),
          ([(0, 1), (1, 2)], [(0, 1), (1, 2)])]
TREES = [[0, 1, 2], [[0, 1], 2], [0, [1, 2]], [[0], [1], [2]], [[[0], 1], 2], [0, [[1], 2]], [[0, 1, 2]], [[[0]], [[1, [2]]]]]


class Model(object):
    """builds the problem; answers the reference"""

    def __init__(self, g, t, kind, dep=0., promote=0, fd=(), ln=None, root_fd=None, mark=True, comp_fd=None, indep_in=False, pargroup=False):
        self.oe, self.ne = GRAPHS[g]
        self.tree, self.kind, self.dep, self.promote, self.fd = TREES[t], kind, dep, promote, fd
        self.ln, self.root_fd, self.mark, self.comp_fd = ln, root_fd, mark, comp_fd
        self.o, self.x = 1., 2.
        self.path = {}
        self.groups = []
        self.order = []
        self.walk(self.tree, '')
        self.log = []

    def walk(self, tree, pre):
        for k, e in enumerate(tree):
            if isinstance(e, list):
                p = pre + 'g%d' % k
                self.groups.append(p)
                self.walk(e, p + '.')
            else:
                self.path[e] = pre + 'n%d' % e
                self.order.append(e)

    def build(self):
        from openmdao.api import Problem, Group, IndepVarComp
        from mc.models import LN
        Node = classes()
        kind, prom = self.kind, self.promote
        prob = Problem(root=Group())
        root = prob.root
        root.add('ind', IndepVarComp([('x', 2.), ('o', KINDS[kind][0](1.), {'pass_by_obj': True}) if kind in FLAG else ('o', KINDS[kind][0](1.))]))
        self.nodes = {}

        def fill(group, tree, pre):
            for k, e in enumerate(tree):
                if isinstance(e, list):
                    sub = group.add('g%d' % k, Group(), promotes=['*'] if prom else None)
                    fill(sub, e, pre + 'g%d.' % k)
                    if pre + 'g%d' % k in self.fd:
                        sub.deriv_options['type'] = 'cs' if self.root_fd == 'cs' else 'fd'
                else:
                    nx = sum(1 for a, b in self.ne if b == e) + (1 if not any(b == e for a, b in self.ne) else 0)
                    np_ = sum(1 for a, b in self.oe if b == e) + (1 if not any(b == e for a, b in self.oe) else 0)
                    node = Node(e, nx, np_, kind, 1. + e, self.dep, True, self.mark, self.log, 'v%d_' % e if prom else '')
                    self.nodes[e] = node
                    group.add('n%d' % e, node, promotes=['*'] if prom else None)
                    if self.comp_fd:
                        node.deriv_options['type'] = self.comp_fd
        fill(root, self.tree, '')

        for e in range(3):
            node = self.nodes[e]
            srcs = [a for a, b in self.ne if b == e]
            for k, x in enumerate(node.xs):
                root.connect(self.name(srcs[k], 'y') if srcs else 'ind.x', self.name(e, x))
            srcs = [a for a, b in self.oe if b == e]
            for k, p in enumerate(node.ps):
                root.connect(self.name(srcs[k], 's') if srcs else 'ind.o', self.name(e, p))
        if self.ln:
            root.ln_solver = LN[self.ln]()
        if self.root_fd == 'fd' and not self.fd:
            root.deriv_options['type'] = 'fd'
        self.prob = prob
        return prob

    def name(self, e, v):
        if self.promote:
            return v if v.startswith('v%d_' % e) else 'v%d_%s' % (e, v)
        return self.path[e] + '.' + v

    def region(self, e):
        """the outermost differenced group around a node"""
        if self.root_fd == 'fd' and not self.fd:
            return 'root'
        parts = self.path[e].split('.')
        for k in range(1, len(parts)):
            if '.'.join(parts[:k]) in self.fd:
                return '.'.join(parts[:k])
        return None

    def settle(self, o, x, state=None):
        """one run: values received and calculated, in the order of execution"""
        state = dict(state or {})
        seen = []
        for e in self.order:
            px = [state.get(('y', a), 0.) for a, b in self.ne if b == e] or [x]
            pp = [state.get(('s', a), 0.) for a, b in self.oe if b == e] or [o]
            if self.kind == 'bool':
                pp = [float(int(v) % 2) for v in pp]
            if self.kind in ('int', 'ints'):
                pp = [float(int(v)) for v in pp]
            if self.kind in ('none', 'empty'):
                w = 0.
            else:
                w = sum(pp)
            t = sum(px)
            seen.append((e, pp))
            state['y', e] = (1. + .25 * w) * t + .5 * w
            state['s', e] = 2. * w + 1. + e + self.dep * t
        return state, seen

    def slope(self, o, x, out):
        """d y[out] / d x, with constant objects except inside a differenced group"""
        h = 1e-6

        def run(dx):
            base, _ = self.settle(o, x)
            st = {}
            for e in self.order:
                px = [st[('y', a)] for a, b in self.ne if b == e] or [x + dx]
                srcs = [a for a, b in self.oe if b == e]
                if srcs:
                    pp = [st[('s', a)] if self.region(a) and self.region(a) == self.region(e) else base['s', a] for a in srcs]
                else:
                    pp = [o]
                w, t = sum(pp), sum(px)
                st['y', e] = (1. + .25 * w) * t + .5 * w
                st['s', e] = 2. * w + 1. + e + self.dep * t
            return st['y', out]
        return (run(h) - run(-h)) / (2 * h)


def quiet_setup(prob):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        prob.setup(check=False)


# ------------------------------------------------------------------ flow

def verify_run(R, m, prob, o, x, state, key, info):
    """compare the log of one run with the reference"""
    ref, seen = m.settle(o, x, state)
    make = KINDS[m.kind][0]
    got = m.log
    if not R.check([e for e, v in got] == [e for e, v in seen], key + ':order', (info, got)):
        return ref
    for (e, vals), (_, want) in zip(got, seen):
        for v, w in zip(vals, want):
            if m.kind == 'func':
                ok = callable(v) and v() == w
            else:
                ok = same(v, make(w))
            R.check(ok, key + ':received', (info, e, repr(v), repr(make(w))))
    for e in range(3):
        y = prob[m.name(e, 'y')]
        R.check(abs(y - ref['y', e]) <= 1e-12 * (1. + abs(ref['y', e])), key + ':number', (info, e, y, ref['y', e]))
        s = prob[m.name(e, 's')]
        ok = s() == ref['s', e] if m.kind == 'func' else same(s, make(ref['s', e]))
        R.check(ok, key + ':produced', (info, e, repr(s), ref['s', e]))
    return ref


def verify_sizes(R, prob, key, info):
    root = prob.root
    R.check(root.unknowns.vec.size == 1 + 3, key + ':unknown-size', (info, root.unknowns.vec.size))
    for vec in (root.dumat[None], root.resids):
        R.check(vec.vec.size == 4, key + ':deriv-size', (info, vec.vec.size))


def flow_case(case, R):
    _, g, t, kind, promote, mark = case
    # nodes of reversed order read old values
    m = Model(g, t, kind, promote=promote, mark=bool(mark))
    try:
        prob = m.build()
        quiet_setup(prob)
    except Exception as err:
        R.fail('flow:setup', (case, repr(err)))
        return
    verify_sizes(R, prob, 'flow', case)
    state, o, x = {}, 1., 2.
    make, _, mutate = KINDS[kind]
    zero = dict([(('s', e), 0.) for e in range(3)])
    state = dict(zero)
    fresh = True
    ops = ['run', 'set', 'setx', 'run', 'run', 'mutate', 'run', 'set', 'set', 'run', 'setup', 'run', 'setx', 'set', 'run', 'grad', 'run', 'mutate', 'setx', 'run']
    n = 0
    for op in ops:
        R.step()
        n += 1
        if op == 'run':
            del m.log[:]
            prob.run()
            state = verify_run(R, m, prob, o, x, state, 'flow', (case, n))
            R.state((case, n))
        elif op == 'set':
            o = 3. + n
            v = make(o)
            prob['ind.o'] = v
            R.check(prob['ind.o'] is v or same(prob['ind.o'], v), 'flow:set', (case, n))
        elif op == 'setx':
            x = .5 + n
            prob['ind.x'] = x
        elif op == 'mutate' and mutate and n > 1:
            o = 10. + n
            v = prob['ind.o']
            mutate(v, o)
        elif op == 'setup':
            # a new setup starts from the declared values
            start = prob.root.ind._init_unknowns_dict['o']['val']
            quiet_setup(prob)
            o = 1. if not callable(start) else 1.
            o = KINDS[kind][1](prob['ind.o']) if kind not in ('none', 'empty') else o
            x = 2.
            state = dict(zero)
        elif op == 'grad':
            if sorted(m.order) == m.order:
                prob.calc_gradient(['ind.x'], [m.name(2, 'y')])
    R.trace()


# ------------------------------------------------------------------ operation sequences

def seq_case(case, R):
    _, g, t, kind, first, depth = case
    make, load, mutate = KINDS[kind]
    ops = ['set0', 'set1', 'setx', 'run', 'gradf', 'gradr', 'gradfd', 'partials', 'totals', 'setup'] + (['mutate'] if mutate else [])
    for rest in product(ops, repeat=depth - 1):
        seq = (ops[first % len(ops)],) + rest
        if 'run' not in seq[:-1] and any(o in seq for o in ('gradf', 'gradr', 'gradfd', 'partials', 'totals')):
            continue
        m = Model(g, t, kind, dep=.5 if kind in SMOOTH else 0.)
        prob = m.build()
        quiet_setup(prob)
        o, x = 1., 2.
        state = dict((('s', e), 0.) for e in range(3))
        ran = None
        for n, op in enumerate(seq + ('run',)):
            R.step()
            if op == 'run':
                del m.log[:]
                prob.run()
                state = verify_run(R, m, prob, o, x, state, 'seq', (case, seq, n))
                ran = (o, x)
            elif op in ('set0', 'set1'):
                o = 4. if op == 'set0' else -1.
                prob['ind.o'] = make(o)
            elif op == 'mutate':
                o = o + 2.
                mutate(prob['ind.o'], o)
            elif op == 'setx':
                x = x + 1.
                prob['ind.x'] = x
            elif op == 'setup':
                quiet_setup(prob)
                o, x = load(prob['ind.o']), 2.
                state = dict((('s', e), 0.) for e in range(3))
                ran = None
            else:
                if ran != (o, x):
                    break
                before = [(m.name(e, 's'), prob[m.name(e, 's')]) for e in range(3)] + [('ind.o', prob['ind.o'])]
                before = [(k, v, repr(v)) for k, v in before]
                recv = dict((e, [m.nodes[e].params[p] for p in m.nodes[e].ps]) for e in range(3))
                out = io.StringIO()
                if op == 'partials':
                    d = prob.check_partial_derivatives(out_stream=out)
                    for c in d:
                        R.check(all(not k[0].endswith('s') and '.p' not in '.' + k[1] for k in d[c]), 'seq:objects-in-partials', (case, sorted(d[c])))
                        for k in d[c]:
                            R.check(np.allclose(d[c][k]['J_fwd'], d[c][k]['J_fd'], atol=1e-4), 'seq:partials', (case, seq, c, k, d[c][k]['J_fwd'], d[c][k]['J_fd']))
                elif op == 'totals':
                    prob.check_total_derivatives(out_stream=out)
                else:
                    mode = {'gradf': 'fwd', 'gradr': 'rev', 'gradfd': 'fd'}[op]
                    J = prob.calc_gradient(['ind.x'], [m.name(e, 'y') for e in range(3)], mode=mode, return_format='dict')
                    m2 = Model(g, t, kind, dep=m.dep, root_fd='fd' if mode == 'fd' else None)
                    for e in range(3):
                        want = m2.slope(o, x, e)
                        R.check(abs(J[m.name(e, 'y')]['ind.x'][0, 0] - want) < 1e-4 * (1. + abs(want)), 'seq:derivative-' + mode, (case, seq, e, J[m.name(e, 'y')], want))
                for k, v, r in before:
                    R.check(prob[k] is v or same(prob[k], v), 'seq:object-changed-by-' + op, (case, seq, k, repr(prob[k]), r))
                    R.check(repr(prob[k]) == r or callable(v), 'seq:object-modified-by-' + op, (case, seq, k, repr(prob[k]), r))
                for e in range(3):
                    now = [m.nodes[e].params[p] for p in m.nodes[e].ps]
                    R.check(all(a is b or same(a, b) for a, b in zip(now, recv[e])), 'seq:input-changed-by-' + op, (case, seq, e, repr(now), repr(recv[e])))
        R.state((case, seq))
    R.trace()


# ------------------------------------------------------------------ derivatives around objects

def deriv_case(case, R):
    _, g, t, kind, dep, fd, ln, root_fd, comp_fd = case
    promote = 0
    m = Model(g, t, kind, dep=dep, fd=tuple(fd), ln=ln, root_fd=root_fd, comp_fd=comp_fd, promote=promote)
    try:
        prob = m.build()
        quiet_setup(prob)
    except Exception as err:
        R.fail('deriv:setup', (case, repr(err)))
        return
    o, x = 1., 2.
    prob.run()
    for k, (o, x) in enumerate([(1., 2.), (3., 2.), (3., -1.5)]):
        prob['ind.o'] = KINDS[kind][0](o)
        prob['ind.x'] = x
        prob.run()
        ref, _ = m.settle(o, x)
        names = [m.name(e, 'y') for e in range(3)]
        before = dict((m.name(e, 's'), prob[m.name(e, 's')]) for e in range(3))
        for mode in ('fwd', 'rev', 'fd'):
            if mode == 'fd' and (root_fd or fd):
                continue
            R.step()
            try:
                J = prob.calc_gradient(['ind.x'], names, mode=mode, return_format='dict')
            except Exception as err:
                R.fail('deriv:error', (case, mode, repr(err)))
                continue
            mm = m if mode != 'fd' else Model(g, t, kind, dep=dep, root_fd='fd')
            for e in range(3):
                want = mm.slope(o, x, e)
                got = J[names[e]]['ind.x'][0, 0]
                R.check(abs(got - want) <= 1e-4 * (1. + abs(want)), 'deriv:wrong', (case, mode, e, got, want))
            for nme in before:
                R.check(prob[nme] is before[nme] or same(prob[nme], before[nme]), 'deriv:object-changed', (case, mode, nme, repr(prob[nme]), repr(before[nme])))
                R.check(not np.iscomplexobj(KINDS[kind][1](prob[nme])), 'deriv:complex-object', (case, mode, nme, repr(prob[nme])))
        for e in range(3):
            R.check(abs(prob[m.name(e, 'y')] - ref['y', e]) < 1e-10 * (1 + abs(ref['y', e])), 'deriv:number-changed', (case, e))
        R.state((case, k))
    R.trace()


# ------------------------------------------------------------------ kinds of declarations

def flags_case(case, R):
    """source and target marked or not; indices; units; nesting"""
    from openmdao.api import Problem, Group, IndepVarComp, Component
    _, smark, tmark, form, units, nest = case
    log = []

    class Src(Component):
        def __init__(self):
            super(Src, self).__init__()
            kw = {'pass_by_obj': bool(smark)} if smark is not None else {}
            if units:
                kw['units'] = 'm'
            self.add_param('x', 1.)
            self.add_output('a', 0. if form == 'scalar' else np.zeros(3) if form != 'matrix' else np.zeros((2, 2)), **kw)

        def solve_nonlinear(self, params, unknowns, resids):
            x = params['x']
            unknowns['a'] = x if form == 'scalar' else np.array([x, x + 1., x * x]) if form != 'matrix' else np.array([[x, 1.], [2., x]])

        def linearize(self, params, unknowns, resids):
            if smark:
                return {}
            x = params['x']
            return {('a', 'x'): np.array([[1.]]) if form == 'scalar' else np.array([[1.], [1.], [2 * x]]) if form != 'matrix' else np.array([[1.], [0.], [0.], [1.]])}

    class Tgt(Component):
        def __init__(self):
            super(Tgt, self).__init__()
            kw = {'pass_by_obj': bool(tmark)} if tmark is not None else {}
            if units:
                kw['units'] = 'cm'
            if form == 'indices':
                self.add_param('b', np.zeros(2), **kw)
            else:
                self.add_param('b', 0. if form == 'scalar' else np.zeros(3) if form != 'matrix' else np.zeros((2, 2)), **kw)
            self.add_output('z', 0.)

        def solve_nonlinear(self, params, unknowns, resids):
            b = params['b']
            log.append(np.array(b, copy=True))
            unknowns['z'] = np.sum(b)

        def linearize(self, params, unknowns, resids):
            if tmark or smark:
                return {}
            n = np.size(params['b'])
            return {('z', 'b'): np.ones((1, n))}

    prob = Problem(root=Group())
    root = prob.root
    root.add('ind', IndepVarComp('x', 1.))
    hs = root.add('gs', Group()) if nest & 1 else root
    ht = root.add('gt', Group()).add('in', Group()) if nest & 2 else root
    hs.add('src', Src())
    ht.add('tgt', Tgt())
    s, t = ('gs.' if nest & 1 else '') + 'src', ('gt.in.' if nest & 2 else '') + 'tgt'
    root.connect('ind.x', s + '.x')
    if form == 'indices':
        root.connect(s + '.a', t + '.b', src_indices=[2, 0])
    else:
        root.connect(s + '.a', t + '.b')
    R.step()
    key = 'flags:%s%s' % (form, '-units' if units else '')
    try:
        quiet_setup(prob)
    except Exception as err:
        # only objects with indices may be refused, by an error of setup
        R.check(form == 'indices' and (smark or tmark), key + ':refused', (case, repr(err)))
        R.state(case)
        return
    for x in (1., 2.5, 2.5, -3.):
        R.step()
        prob['ind.x'] = x
        del log[:]
        try:
            prob.run()
        except Exception as err:
            R.fail(key + ':run', (case, repr(err)))
            return
        want = np.array(x if form == 'scalar' else [x, x + 1., x * x] if form == 'array' else [x * x, x] if form == 'indices' else [[x, 1.], [2., x]]) * (100. if units else 1.)
        R.check(len(log) == 1 and np.shape(log[0]) == np.shape(want) and np.allclose(log[0], want, rtol=1e-13), key + ':received', (case, x, log, want))
        R.check(abs(prob[t + '.z'] - np.sum(want)) < 1e-9, key + ':number', (case, x, prob[t + '.z'], np.sum(want)))
        R.check(np.allclose(root.unknowns[(s + '.a')], want / (100. if units else 1.) if form != 'indices' else [x, x + 1., x * x]), key + ':source-changed', (case, x, root.unknowns[s + '.a']))
        for mode in ('fwd', 'rev', 'fd'):
            try:
                J = prob.calc_gradient(['ind.x'], [t + '.z'], mode=mode)
            except Exception as err:
                R.fail(key + ':gradient-error', (case, mode, repr(err)))
                return
            full = {'scalar': 1., 'array': 2. + 2 * x, 'indices': 2 * x + 1., 'matrix': 2.}[form] * (100. if units else 1.)
            want_d = full if mode == 'fd' or not (smark or tmark) else 0.
            R.check(abs(J[0, 0] - want_d) < 1e-3 * (1 + abs(want_d)), key + ':derivative', (case, x, mode, J, want_d))
        R.check(abs(prob[t + '.z'] - np.sum(want)) < 1e-9, key + ':number-after-gradient', (case, x, prob[t + '.z'], np.sum(want)))
        R.state((case, x))
    R.trace()


def badshape_case(case, R):
    """numbers of unequal size are refused, however they are marked"""
    from openmdao.api import Problem, Group, IndepVarComp, Component
    _, smark, tmark, sn, tn, nest = case

    def val(n):
        return np.zeros(n) if n != [] else 0.

    class T(Component):
        def __init__(self):
            super(T, self).__init__()
            self.add_param('b', val(tn), **({} if tmark is None else {'pass_by_obj': tmark}))

        def solve_nonlinear(self, params, unknowns, resids):
            pass
    prob = Problem(root=Group())
    prob.root.add('ind', IndepVarComp('a', val(sn), **({} if smark is None else {'pass_by_obj': smark})))
    (prob.root.add('g', Group()) if nest else prob.root).add('t', T())
    prob.root.connect('ind.a', 'g.t.b' if nest else 't.b')
    R.step()
    try:
        quiet_setup(prob)
        err = None
    except Exception as e:
        err = e
    R.check((err is None) == (sn == tn), 'badshape:' + ('accepted' if err is None else 'refused'), (case, repr(err)))
    if err is not None:
        R.check(isinstance(err, (TypeError, ValueError, RuntimeError)), 'badshape:error-type', (case, repr(err)))
    R.state(case)
    R.trace()


def novalue_case(case, R):
    """an input declared without a value takes the object of its source"""
    from openmdao.api import Problem, Group, IndepVarComp, Component
    _, kind, nest, marked = case
    make = KINDS[kind][0]
    got = []

    class T(Component):
        def __init__(self):
            super(T, self).__init__()
            self.add_param('b', **({'pass_by_obj': True} if marked else {}))
            self.add_output('y', 0.)

        def solve_nonlinear(self, params, unknowns, resids):
            got.append(params['b'])
    prob = Problem(root=Group())
    prob.root.add('ind', IndepVarComp([('a', make(2.), {'pass_by_obj': True})]))
    (prob.root.add('g', Group()) if nest else prob.root).add('t', T())
    prob.root.connect('ind.a', 'g.t.b' if nest else 't.b')
    R.step()
    quiet_setup(prob)
    prob.run()
    prob['ind.a'] = make(7.)
    prob.run()
    for v, n in zip(got, (2., 7.)):
        R.check(v() == n if kind == 'func' else same(v, make(n)), 'novalue:received', (case, repr(v)))
    R.check(len(got) == 2, 'novalue:runs', case)
    R.state(case)
    R.trace()


def dangling_case(case, R):
    """unconnected objects, alone or shared by promotion"""
    from openmdao.api import Problem, Group, IndepVarComp
    _, kind, shape = case
    Node = classes()
    make = KINDS[kind][0]
    log = []
    prob = Problem(root=Group())
    root = prob.root
    root.add('ind', IndepVarComp('x', 2.))
    a, b = Node('a', 1, 1, kind, log=log), Node('b', 1, 1, kind, log=log)
    if shape == 'alone':
        root.add('a', a)
        root.add('b', b)
        names = ['a.p0', 'b.p0']
    elif shape == 'shared':
        root.add('a', a, promotes=['p0'])
        root.add('b', b, promotes=['p0'])
        names = ['p0']
    elif shape == 'deep':
        g = root.add('g', Group(), promotes=['p0'])
        g.add('a', a, promotes=['p0'])
        h = root.add('h', Group(), promotes=['p0'])
        h.add('k', Group(), promotes=['p0']).add('b', b, promotes=['p0'])
        names = ['p0']
    elif shape == 'group':
        g = root.add('g', Group())
        g.add('a', a, promotes=['p0'])
        g.add('b', b, promotes=['p0'])
        names = ['g.p0']
    pa = {'alone': ('a', 'b'), 'shared': ('a', 'b'), 'deep': ('g.a', 'h.k.b'), 'group': ('g.a', 'g.b')}[shape]
    for p in pa:
        root.connect('ind.x', p + '.x0')
    try:
        quiet_setup(prob)
    except Exception as err:
        R.fail('dangling:setup', (case, repr(err)))
        return
    vals = dict((n, 0.) for n in names)
    for k, op in enumerate(['run', 'set0', 'run', 'set1', 'run', 'run', 'set0', 'set1', 'run', 'grad', 'run']):
        R.step()
        if op.startswith('set'):
            n = names[int(op[3]) % len(names)]
            vals[n] = 3. + k
            v = make(vals[n])
            prob[n] = v
            R.check(prob[n] is v or same(prob[n], v), 'dangling:get', (case, k, n, repr(prob[n])))
        elif op == 'run':
            del log[:]
            prob.run()
            want = [vals[names[0]], vals[names[-1]]]
            for i, (tag, got) in enumerate(log):
                w = make(want[i])
                ok = got[0]() == want[i] if kind == 'func' else same(got[0], w)
                R.check(ok, 'dangling:received', (case, k, tag, repr(got), repr(w)))
            R.check(len(log) == 2, 'dangling:runs', (case, log))
        else:
            J = prob.calc_gradient(['ind.x'], [pa[0] + '.y', pa[1] + '.y'])
            ws = [0. if kind in ('none', 'empty') else KINDS[kind][1](make(vals[n])) for n in (names[0], names[-1])]
            R.check(np.allclose(J.ravel(), [1. + .25 * w for w in ws]), 'dangling:derivative', (case, J, ws))
        R.state((case, k))
    R.trace()


def mixed_case(case, R):
    """objects beside numbers in one system: the numbers are those of a system without objects, for every arrangement"""
    from openmdao.api import Problem, Group, IndepVarComp, Component
    _, mask, kind, where = case
    make = KINDS[kind][0]
    sizes = [1, 3, 2, 1]

    class C(Component):
        def __init__(self, objs, prev):
            super(C, self).__init__()
            self.objs = objs
            for i, n in enumerate(sizes):
                if objs >> i & 1:
                    self.add_param('q%d' % i, make(0.), pass_by_obj=True)
                    self.add_output('r%d' % i, make(0.), pass_by_obj=True)
                self.add_param('a%d' % i, np.ones(n) if n > 1 else 1.)
                self.add_output('b%d' % i, np.zeros(n) if n > 1 else 0.)

        def solve_nonlinear(self, params, unknowns, resids):
            for i, n in enumerate(sizes):
                unknowns['b%d' % i] = params['a%d' % i] * (i + 2.) + (0. if n == 1 else np.arange(n))
                if self.objs >> i & 1:
                    unknowns['r%d' % i] = params['q%d' % i]

        def linearize(self, params, unknowns, resids):
            return dict((('b%d' % i, 'a%d' % i), np.eye(n) * (i + 2.)) for i, n in enumerate(sizes))

    def build(m):
        prob = Problem(root=Group())
        root = prob.root
        vs = []
        for i, n in enumerate(sizes):
            if m >> i & 1:
                vs.append(('o%d' % i, make(5. + i), {'pass_by_obj': True}))
            vs.append(('v%d' % i, np.arange(n) + 1. + i if n > 1 else 1. + i))
        root.add('ind', IndepVarComp(vs))
        g1 = root.add('g', Group()) if where & 1 else root
        g2 = root.add('h', Group()) if where & 2 else root
        g1.add('c', C(m, None))
        g2.add('d', C(m, None))
        c, d = ('g.c' if where & 1 else 'c'), ('h.d' if where & 2 else 'd')
        for i in range(4):
            root.connect('ind.v%d' % i, c + '.a%d' % i)
            root.connect(c + '.b%d' % i, d + '.a%d' % i)
            if m >> i & 1:
                root.connect('ind.o%d' % i, c + '.q%d' % i)
                root.connect(c + '.r%d' % i, d + '.q%d' % i)
        if where & 4:
            from openmdao.api import DirectSolver
            root.ln_solver = DirectSolver()
        quiet_setup(prob)
        prob.run()
        return prob, c, d
    p0, c, d = build(0)
    p1, _, _ = build(mask)
    R.step()
    R.check(np.array_equal(p0.root.unknowns.vec, p1.root.unknowns.vec), 'mixed:vector', (case, p0.root.unknowns.vec, p1.root.unknowns.vec))
    R.check(np.array_equal(p0.root.params.vec, p1.root.params.vec), 'mixed:params', case)
    for i in range(4):
        if mask >> i & 1:
            for nme in (c, d):
                v = p1[nme + '.r%d' % i]
                R.check(v() == 5. + i if kind == 'func' else same(v, make(5. + i)), 'mixed:object', (case, i, nme, repr(v)))
    ins, outs = ['ind.v%d' % i for i in range(4)], [d + '.b%d' % i for i in range(4)]
    for mode in ('fwd', 'rev', 'fd'):
        R.step()
        try:
            a, b = p0.calc_gradient(ins, outs, mode=mode), p1.calc_gradient(ins, outs, mode=mode)
        except Exception as err:
            R.fail('mixed:gradient-error', (case, mode, repr(err)))
            continue
        R.check(np.array_equal(a, b), 'mixed:gradient', (case, mode, a, b))
    R.state(case)
    R.trace()


def cycle_case(case, R):
    """an object goes round a cycle of the nonlinear solver"""
    from openmdao.api import Problem, Group, IndepVarComp, Component, NLGaussSeidel, ScipyGMRES
    _, order, maxiter, nest, kind = case
    make, load, _ = KINDS[kind]
    log = []

    class A(Component):
        def __init__(self, tag):
            super(A, self).__init__()
            self.tag = tag
            self.add_param('p', make(0.), pass_by_obj=True)
            self.add_param('x', 0.)
            self.add_output('s', make(0.), pass_by_obj=True)
            self.add_output('y', 0.)

        def solve_nonlinear(self, params, unknowns, resids):
            n = load(params['p'])
            log.append((self.tag, n))
            unknowns['s'] = make(n + 1.)
            unknowns['y'] = .25 * params['x'] + n

    prob = Problem(root=Group())
    root = prob.root
    cont = root
    if nest:
        cont = root.add('g', Group())
    cont.nl_solver = NLGaussSeidel()
    cont.nl_solver.options['maxiter'] = maxiter
    cont.nl_solver.options['atol'] = 0.
    cont.nl_solver.options['rtol'] = 0.
    cont.ln_solver = ScipyGMRES()
    names = ['a', 'b', 'c'][:len(order)]
    for k in order:
        cont.add(names[k], A(k))
    for k in range(len(order)):
        nxt = names[(k + 1) % len(order)]
        cont.connect(names[k] + '.s', nxt + '.p')
        cont.connect(names[k] + '.y', nxt + '.x')
    try:
        cont.set_order([names[k] for k in order])
        quiet_setup(prob)
    except Exception as err:
        R.fail('cycle:setup', (case, repr(err)))
        return
    s = dict((k, 0.) for k in range(len(order)))
    n = len(order)
    for run in range(3):
        R.step()
        del log[:]
        prob.run()
        # evaluations of residuals execute components as well, so only the agreement of what follows each other counts
        R.check(len(log) >= n * (maxiter if n > 1 else 1) and [k for k, v in log[:n]] == order, 'cycle:runs', (case, run, log))
        for k, v in log:
            R.check(v == s[(k - 1) % n], 'cycle:received', (case, run, log, k, v, s))
            s[k] = v + 1.
        for k in range(n):
            R.check(load(prob[('g.' if nest else '') + names[k] + '.s']) == s[k], 'cycle:object', (case, run, k))
    R.state(case)
    R.trace()


def inside_case(case, R):
    """a differenced group that holds the source of an object, and the object given as design variable"""
    from openmdao.api import Problem, Group, IndepVarComp
    _, kind, typ, where, inner_first = case
    Node = classes()
    make = KINDS[kind][0]
    prob = Problem(root=Group())
    root = prob.root
    g = root if where == 'root' else root.add('g', Group())
    if where == 'deep':
        g = g.add('h', Group())
    pre = {'root': '', 'group': 'g.', 'deep': 'g.h.'}[where]
    inner = IndepVarComp([('o', make(3.), {'pass_by_obj': True}), ('w', 1.5)] if inner_first else [('w', 1.5), ('o', make(3.), {'pass_by_obj': True})])
    g.add('inner', inner)
    root.add('ind', IndepVarComp('x', 2.))
    g.add('n', Node('n', 2, 1, kind))
    root.connect('ind.x', pre + 'n.x0')
    g.connect('inner.o', 'n.p0')
    g.connect('inner.w', 'n.x1')
    tgt = root if where != 'deep' else root.g
    if where == 'group':
        tgt = g
    tgt.deriv_options['type'] = typ
    R.step()
    try:
        quiet_setup(prob)
        prob.run()
        w = KINDS[kind][1](make(3.))
        for wrt in (['ind.x'], ['ind.x', pre + 'inner.w']):
            for mode in ('fwd', 'rev'):
                J = prob.calc_gradient(wrt, [pre + 'n.y'], mode=mode)
                R.check(np.allclose(J, 1. + .25 * w, atol=1e-5), 'inside:derivative', (case, wrt, mode, J, 1 + .25 * w))
        if where != 'root':
            prob.check_partial_derivatives(out_stream=io.StringIO())
        v = prob[pre + 'inner.o']
        R.check(v() == 3. if kind == 'func' else same(v, make(3.)), 'inside:object', case)
    except Exception as err:
        R.fail('inside:error', (case, repr(err)))
    R.state(case)
    R.trace()


# ------------------------------------------------------------------ files

CONTENTS = [b'line 1\nline 2\n', b'', b'a\r\nb\r\n', b'\xff\xfe\x00\x80', b'short', b'x' * 70000 + b'\n', b'mac\rend', u'h\xe9\u20ac\n'.encode('utf8')]
FTREES = [((), ()), (('d1',), ('d2',)), (('d1',), ()), ((), ('d2',)), (('d1', 'e'), ('d1', 'f')), (('d1',), ('d1',)), ((None, 'd'), (None,))]


def file_classes(content, got, chain):
    from openmdao.api import Component, FileRef

    class Src(Component):
        def __init__(self, fname, binary, mode):
            super(Src, self).__init__()
            self.add_param('x', 0.)
            self.mode = mode
            self.add_output('f', FileRef(fname), **({'binary': True} if binary else {}))
            self.add_output('y', 0.)

        def solve_nonlinear(self, params, unknowns, resids):
            with open(unknowns['f']._abspath(), 'wb') as f:
                f.write(content[0])
            unknowns['y'] = params['x'] * 2.

    class Mid(Component):
        def __init__(self, fin, fout, binary):
            super(Mid, self).__init__()
            kw = {'binary': True} if binary else {}
            self.add_param('fin', FileRef(fin), **kw)
            self.add_output('fout', FileRef(fout), **kw)

        def solve_nonlinear(self, params, unknowns, resids):
            with open(params['fin']._abspath(), 'rb') as f:
                data = f.read()
            got.append(('mid', data))
            with open(unknowns['fout']._abspath(), 'wb') as f:
                f.write(data + b'+')

    class Sink(Component):
        def __init__(self, fname, binary, tag):
            super(Sink, self).__init__()
            self.tag = tag
            self.add_param('f', FileRef(fname), **({'binary': True} if binary else {}))
            self.add_param('y', 0.)
            self.add_output('z', 0.)
            self.binary = binary

        def solve_nonlinear(self, params, unknowns, resids):
            unknowns['z'] = params['y'] + 1.
            if self.binary:
                with params['f'].open('r') as f:
                    got.append((self.tag, f.read()))
            else:
                with params['f'].open('rb') as f:
                    got.append((self.tag, f.read()))

        def linearize(self, params, unknowns, resids):
            return {('z', 'y'): np.array([[1.]])}

    return Src, Mid, Sink


def place(root, dirs, name, comp, promotes):
    from openmdao.api import Group
    g, path = root, ''
    for k, d in enumerate(dirs):
        n = 'g_%s_%d' % (name, k)
        g = g.add(n, Group(), promotes=['*'] if promotes else None)
        if d:
            g.directory = d
            g.create_dirs = True
        path += n + '.'
    g.add(name, comp, promotes=['*'] if promotes else None)
    return path + name


def file_case(case, R):
    from openmdao.api import Problem, Group, IndepVarComp
    _, dirs, names, binary, chain, own = case
    here = os.getcwd()
    tmp = tempfile.mkdtemp(prefix='mc26-')
    try:
        os.chdir(tmp)
        content, got = [None], []
        Src, Mid, Sink = file_classes(content, got, chain)
        fs, ft = names
        prob = Problem(root=Group())
        root = prob.root
        root.add('ind', IndepVarComp('x', 1.))
        sd, td = FTREES[dirs]
        src = Src(fs, binary, 'w')
        sp = place(root, sd, 'src', src, False)
        if own:
            src.directory, src.create_dirs = own, True
        last = sp + '.f'
        if chain:
            mid = Mid(ft + '.mid', 'mid.out', binary)
            mp = place(root, td[:1], 'mid', mid, False)
            mid.create_dirs = True
            root.connect(last, mp + '.fin')
            last = mp + '.fout'
        snk = [Sink(ft, binary, 'one'), Sink(ft + '2', binary, 'two')]
        snk[0].create_dirs = snk[1].create_dirs = True
        src.create_dirs = True
        tp = [place(root, td, 'snk', snk[0], False), place(root, (), 'top', snk[1], False)]
        for p in tp:
            root.connect(last, p + '.f')
            root.connect(sp + '.y', p + '.y')
        root.connect('ind.x', sp + '.x')
        try:
            quiet_setup(prob)
        except Exception as err:
            R.fail('file:setup', (case, repr(err)))
            return
        top = [tmp] + [d for d in sd if d] + ([own] if own else [])
        spath = os.path.join(*(top + [fs]))
        for k, c in enumerate([CONTENTS[i] for i in (0, 5, 4, 2, 3, 1, 6, 7, 0)]):
            R.step()
            content[0] = c
            del got[:]
            prob['ind.x'] = 1. + k
            try:
                prob.run()
            except Exception as err:
                R.fail('file:run' + ('' if binary else '-text'), (case, c[:20], repr(err)))
                continue
            want = c + (b'+' if chain else b'')
            seen = dict(got)
            for tag in ('one', 'two'):
                R.check(seen.get(tag) == want, 'file:received' + ('' if binary else '-text'), (case, tag, c[:20], (seen.get(tag) or b'none')[:20]))
            if chain:
                R.check(seen.get('mid') == c, 'file:received-mid', (case, c[:20]))
            with open(spath, 'rb') as f:
                R.check(f.read() == c, 'file:source-changed', (case, c[:20]))
            for p in tp:
                R.check(prob[p + '.z'] == 2. * (1. + k) + 1., 'file:number', (case, p))
            R.state((case, k))
        # gradients leave files readable and numbers right
        J = prob.calc_gradient(['ind.x'], [tp[0] + '.z'], mode='fd')
        R.check(np.allclose(J, 2.), 'file:gradient', (case, J))
        # nothing else was made
        made = sorted(os.path.relpath(os.path.join(d, f), tmp) for d, _, fs_ in os.walk(tmp) for f in fs_)
        n = 2 + 1 + (2 if chain else 0)
        same_as_source = len(set([spath] + [os.path.join(*([tmp] + [d for d in td if d] + [ft]))]))
        R.check(len(made) <= n, 'file:extra-files', (case, made))
    finally:
        os.chdir(here)
        shutil.rmtree(tmp, ignore_errors=True)
    R.trace()


def fileset_case(case, R):
    """the file reference itself is set: an independent file, changed between runs"""
    from openmdao.api import Problem, Group, IndepVarComp, FileRef
    _, seq, absolute, binary, d = case
    here = os.getcwd()
    tmp = tempfile.mkdtemp(prefix='mc26-')
    try:
        os.chdir(tmp)
        base = os.path.join(tmp, d) if d else tmp
        if d:
            os.mkdir(base)
        for i in range(3):
            with open(os.path.join(base, 'f%d' % i), 'wb') as f:
                f.write(b'content %d' % i)
        content, got = [b''], []
        Src, Mid, Sink = file_classes(content, got, 0)
        prob = Problem(root=Group())
        root = prob.root
        if d:
            root.directory = d
        root.add('ind', IndepVarComp('f', FileRef('f0'), **({'binary': True} if binary else {})))
        g = root.add('g', Group())
        g.add('snk', Sink('copy', binary, 'one'))
        root.connect('ind.f', 'g.snk.f')
        quiet_setup(prob)
        cur = 0
        for k, op in enumerate(seq + 'r'):
            R.step()
            if op == 'r':
                del got[:]
                try:
                    prob.run()
                except Exception as err:
                    R.fail('fileset:run', (case, k, repr(err)))
                    break
                R.check(got == [('one', b'content %d' % cur)], 'fileset:received', (case, k, got, cur))
            elif op == 's':
                quiet_setup(prob)
                cur = 0
            else:
                cur = int(op)
                prob['ind.f'] = FileRef(os.path.join(base, 'f%d' % cur) if absolute else 'f%d' % cur)
        R.state(case)
    finally:
        os.chdir(here)
        shutil.rmtree(tmp, ignore_errors=True)
    R.trace()


def fileerr_case(case, R):
    """what setup has to refuse"""
    from openmdao.api import Problem, Group, IndepVarComp, FileRef, Component
    _, sval, tval, sbin, tbin = case
    here = os.getcwd()
    tmp = tempfile.mkdtemp(prefix='mc26-')
    try:
        os.chdir(tmp)

        class S(Component):
            def __init__(self):
                super(S, self).__init__()
                kw = {} if sbin is None else {'binary': sbin}
                self.add_output('f', FileRef('a') if sval == 'file' else {'str': 'a', 'list': [1]}[sval], **kw)

            def solve_nonlinear(self, params, unknowns, resids):
                if sval == 'file':
                    with open('a', 'wb') as f:
                        f.write(b'1')

        class T(Component):
            def __init__(self):
                super(T, self).__init__()
                kw = {} if tbin is None else {'binary': tbin}
                self.add_param('f', FileRef('b') if tval == 'file' else {'str': 'a', 'list': [1]}[tval], **kw)

            def solve_nonlinear(self, params, unknowns, resids):
                pass
        prob = Problem(root=Group())
        prob.root.add('s', S())
        prob.root.add('t', T())
        prob.root.connect('s.f', 't.f')
        R.step()
        try:
            quiet_setup(prob)
            err = None
        except Exception as e:
            err = e
        if sval == 'file' and tval == 'file':
            ok = bool(sbin) == bool(tbin)
        else:
            ok = sval == tval
        R.check((err is None) == ok, 'fileerr:' + ('accepted' if err is None else 'refused'), (case, repr(err)))
        if err is not None:
            R.check(isinstance(err, (TypeError, ValueError, RuntimeError)), 'fileerr:error-type', (case, repr(err)))
        else:
            prob.run()
        R.state(case)
    finally:
        os.chdir(here)
        shutil.rmtree(tmp, ignore_errors=True)
    R.trace()


def cases(tier):
    q = tier == 'quick'
    out = []
    for kind in sorted(KINDS):
        for g in range(len(GRAPHS)):
            for t in range(len(TREES)):
                for promote in (0, 1):
                    if not q or kind in ('str', 'obj', 'floats') or (g + t) % 3 == 0:
                        out.append(['flow', g, t, kind, promote, 1])
                        if kind not in FLAG and (not q or t % 4 == 0):
                            out.append(['flow', g, t, kind, promote, 0])
        for shape in ('alone', 'shared', 'deep', 'group'):
            if kind == 'func' and shape != 'alone':     # different functions to start with
                continue
            out.append(['dangling', kind, shape])
    for kind in SMOOTH + (() if q else ('str', 'int')):
        for g in (0, 1) if q else range(len(GRAPHS)):
            for t in (0, 1, 4) if q else range(8):
                for first in range(11 if KINDS[kind][2] else 10):
                    out.append(['seq', g, t, kind, first, 3 if q or t > 2 else 4])
    for kind in SMOOTH:
        for g in range(len(GRAPHS)):
            for t in range(len(TREES)):
                if q and (g + t + SMOOTH.index(kind)) % 2:
                    continue
                tree_groups = Model(g, t, kind).groups
                if sorted(Model(g, t, kind).order) != Model(g, t, kind).order:
                    continue
                fds = [[]] + [[p] for p in tree_groups]
                for dep in (0., .5):
                    for fd in fds:
                        for ln in ('gs1', 'direct', 'gmres'):
                            out.append(['deriv', g, t, kind, dep, fd, ln, None, None])
                        out.append(['deriv', g, t, kind, dep, fd, 'gs1', None, 'fd'])
                        if not fd:
                            out.append(['deriv', g, t, kind, dep, fd, 'gs1', 'fd', None])
                            out.append(['deriv', g, t, kind, dep, fd, 'gs1', None, 'cs'])
    for smark, tmark in product((None, False, True), repeat=2):
        for form in ('scalar', 'array', 'indices', 'matrix'):
            for units in (0, 1):
                for nest in range(4):
                    out.append(['flags', smark, tmark, form, units, nest])
    for smark, tmark, sn, tn, nest in product((None, False), (None, False, True), ([], [1], [2], [3], [1, 2], [2, 1]), ([], [1], [2], [3], [1, 2], [2, 1]), (0, 1)):
        if (sn == []) == (tn == []):
            out.append(['badshape', smark, tmark, sn, tn, nest])
    for kind in sorted(KINDS):
        for nest in (0, 1):
            out.append(['novalue', kind, nest, 0])
    for mask in range(1, 16):
        for kind in ('str', 'list', 'obj', 'floats', 'int') if q else sorted(KINDS):
            for where in range(8):
                out.append(['mixed', mask, kind, where])
    for n in (2, 3):
        for order in permutations(range(n)):
            for maxiter in (1, 2, 4):
                for nest in (0, 1):
                    for kind in ('str', 'obj', 'list', 'float'):
                        out.append(['cycle', list(order), maxiter, nest, kind])
    for kind in sorted(KINDS):
        for typ in ('fd', 'cs'):
            for where in ('root', 'group', 'deep'):
                if typ == 'cs':
                    continue
                for first in (0, 1):
                    out.append(['inside', kind, typ, where, first])
    for dirs in range(len(FTREES)):
        for names in (('a.dat', 'a.dat'), ('a.dat', 'b.dat'), ('sub/a.dat', 'b.dat'), ('a.dat', 'sub/b.dat'), ('sub/a.dat', 'sub/a.dat')):
            for binary in (0, 1):
                for chain in (0, 1):
                    for own in ('', 'mine'):
                        sd, td = FTREES[dirs]
                        if names[0] == names[1] and [d for d in sd if d] == [d for d in td if d] and not own and chain:
                            continue        # the last file is that of the source
                        out.append(['file', dirs, list(names), binary, chain, own])
    for n in range(1, 5):
        for seq in product('12rs0', repeat=n):
            s = ''.join(seq)
            if s[-1] in 'rs':
                continue
            for absolute in (0, 1):
                for binary in (0, 1) if n < 4 else (0,):
                    for d in ('', 'sub') if n < 4 else ('',):
                        out.append(['fileset', s, absolute, binary, d])
    for sval, tval in product(('file', 'str', 'list'), repeat=2):
        for sbin, tbin in product((None, False, True), repeat=2):
            if (sval != 'file' and sbin is not None) or (tval != 'file' and tbin is not None):
                continue
            out.append(['fileerr', sval, tval, sbin, tbin])
    return out


def run(case, R):
    {'flow': flow_case, 'seq': seq_case, 'deriv': deriv_case, 'flags': flags_case, 'dangling': dangling_case, 'badshape': badshape_case, 'novalue': novalue_case, 'mixed': mixed_case, 'cycle': cycle_case, 'inside': inside_case,
     'file': file_case, 'fileset': fileset_case, 'fileerr': fileerr_case}[case[0]](case, R)
