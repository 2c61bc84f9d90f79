"""C20: a metamodel trains on exactly the data supplied and predicts per output."""
from itertools import product
import contextlib
import copy
import io
import warnings
import numpy as np

PID = 'C20'
LEVEL = 'model_checking'
RULE = ('explicit-state exploration of the real components with recording surrogates: for every mix of input and output shapes, form of the training '
        'data and number of fidelities all sequences of operations (run, move inputs, new training data of 1 or 2 points, emptied data, '
        'inconsistent data, ask for training, warm restart on/off, setup) up to the depth are executed; after every operation the training '
        'and prediction calls, outputs and total derivatives are compared with a reference that keeps the supplied points')
ASSUMPTIONS = ['training without any point is left open', 'a setup with warm restart keeps the earlier points (as in the existing tests)']
NOTE = 'all sequences in the bounds are executed'

SHAPES = {'s': 0., 'one': np.zeros(1), 'v': np.zeros(2), 'm': np.zeros((2, 2)), 't': np.zeros((1, 3))}
FORMS = ['float', 'int', 'array', 'nested', 'mixed', 'objs']
OPS = ['run', 'move', 'data1', 'data2', 'empty', 'badcount', 'badsize', 'ask', 'warm', 'cold', 'setup']
LOG = []


def cases(tier):
    q = tier == 'quick'
    out = []
    mixes = [(i, o) for n in (1, 2) for i in product('s v m one'.split(), repeat=n) for o in ([('s',), ('v',), ('s', 'm')] if n == 1 or q else
             [o for k in (1, 2) for o in product('s v m t'.split(), repeat=k)])]
    mixes += [(i, ('v', 's')) for i in [('s', 'v', 's'), ('v', 's', 'm'), ('m', 'm', 's'), ('one', 's', 'v'), ('t', 'v', 's')]]
    for (ins, outs), form in product(mixes, FORMS):
        for nfi in (0, 1, 2, 3):
            if nfi in (1, 3) and q and len(ins) == 2 and form not in ('float', 'mixed'):
                continue
            out.append(['mix', list(ins), list(outs), form, nfi])
    for first in OPS:
        for second in OPS:
            for mix in ([('s', 'v'), ('s', 'v')], [('v', 's'), ('m',)]):
                for nfi in ((0, 2) if q else (0, 2, 3)):
                    out.append(['hist', [first, second], list(mix[0]), list(mix[1]), nfi, 4 if q else 6])
    for names in NAMES:
        for deriv in ('user', 'fd', 'cs'):
            for nfi in (0, 2):
                out.append(['names', names, deriv, nfi])
    for k in ('connected', 'preset', 'promoted', 'default', 'missing', 'group', 'group-fd', 'group-direct', 'shared-default', 'int-input'):
        out.append(['wiring', k])
    return out


def run(case, R):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()):
            with np.errstate(all='ignore'):
                globals()['run_' + case[0]](case, R)
    R.trace()


# ------------------------------------------------------------------ the recording surrogate and what it computes
def coef(xs, ys):
    """a function of all training data and their order; sizes from the data"""
    m = ys[0].shape[1]
    n = xs[0].shape[1]
    A = np.zeros((m, n))
    c = np.zeros(m)
    for f, (x, y) in enumerate(zip(xs, ys)):
        for k in range(len(x)):
            A += (k + 1.) * (.5 if f else 1.) * np.outer(y[k], x[k]) * .1
            c += (k + 2.) * y[k]
    return A, c


def make_surrogate():
    from openmdao.surrogate_models.surrogate_model import MultiFiSurrogateModel

    class Spy(MultiFiSurrogateModel):
        def train(self, x, y):
            self.learn('train', [x], [y])

        def train_multifi(self, x, y):
            self.learn('multi', list(x), list(y))

        def learn(self, how, x, y):
            self.trained = True
            LOG.append((how, [np.array(v) for v in x], [np.array(v) for v in y]))
            self.A, self.c = coef(LOG[-1][1], LOG[-1][2])

        def predict(self, x):
            super(Spy, self).predict(x)
            LOG.append(('predict', np.array(x)))
            return self.c + self.A.dot(np.sin(x))

        def linearize(self, x):
            LOG.append(('linearize', np.array(x)))
            return self.A * np.cos(x)

    globals()['Spy'] = Spy
    Spy.__qualname__ = 'Spy'
    return Spy()


class Model(object):
    def __init__(self, ins, outs, nfi, names=None, deriv='user', prefix='mm', own=True):
        from openmdao.api import Problem, Group, MetaModel, MultiFiMetaModel, IndepVarComp
        self.ins, self.outs, self.nfi = ins, outs, nfi
        self.iname = names or ['x%d' % i for i in range(len(ins))]
        self.oname = ['y%d' % i for i in range(len(outs))]
        mm = self.mm = MultiFiMetaModel(nfi) if nfi else MetaModel()
        mm.deriv_options['type'] = deriv
        p = self.p = Problem(root=Group())
        g = p.root
        for k, (n, s) in enumerate(zip(self.iname, ins)):
            mm.add_param(n, copy.deepcopy(SHAPES[s]))
            g.add('i%d' % k, IndepVarComp('o', copy.deepcopy(SHAPES[s])))
        for n, s in zip(self.oname, outs):
            if own:
                mm.add_output(n, copy.deepcopy(SHAPES[s]), surrogate=make_surrogate())
            else:
                mm.add_output(n, copy.deepcopy(SHAPES[s]))
        if not own:
            mm.default_surrogate = make_surrogate()
        g.add('mm', mm)
        for n in self.iname:
            g.connect('i%d.o' % self.iname.index(n), 'mm.' + n)
        p.setup(check=False)
        self.fids = list(range(max(nfi, 1)))
        self.isize = sum(max(1, np.size(SHAPES[s])) for s in ins)
        self.osize = [max(1, np.size(SHAPES[s])) for s in outs]
        self.inputs = dict((n, SHAPES[s]) for n, s in zip(self.iname, ins))
        self.known = [np.zeros((0, self.isize)) for f in self.fids], [[np.zeros((0, m)) for f in self.fids] for m in self.osize]
        self.reset()
        self.warm = False
        self.moves = 0
        self.count = 0

    def reset(self):
        self.pending = True
        self.supplied = [[] for f in self.fids], [[[] for f in self.fids] for m in self.outs]
        self.bad = None

    @staticmethod
    def tname(n, f):
        return 'mm.train:%s%s' % (n, '_fi%d' % (f + 1) if f else '')

    # ---- operations
    def data(self, npts, form, fids=None, bad=None):
        """different numbers in every call, entry, point and fidelity"""
        for f in (self.fids if fids is None else fids):
            n = npts + (f if npts else 0)
            rows, orow = [], [[] for _ in self.outs]
            for which, (names, shapes) in enumerate(((self.iname, self.ins), (self.oname, self.outs))):
                for j, (name, s) in enumerate(zip(names, shapes)):
                    pts = []
                    for k in range(n + (1 if bad == ('badcount', which, j, f) else 0)):
                        self.count += 1
                        m = max(1, np.size(SHAPES[s])) + (1 if bad == ('badsize', which, j, f) else 0)
                        base = float(self.count % 23 + k + 5 * f) if form in ('int', 'mixed') else .37 * (self.count % 19) - 1.5 + k
                        v = base + np.arange(m) * (2 if form in ('int', 'mixed') else .25)
                        pts.append(v if np.ndim(SHAPES[s]) == 0 or bad == ('badsize', which, j, f) else v.reshape(np.shape(SHAPES[s])))
                    self.p[self.tname(name, f)] = self.shaped(pts, s, form, bad == ('badsize', which, j, f))
                    flat = [np.ravel(v) for v in pts]
                    if which == 0:
                        rows = flat if not rows and j == 0 else [np.concatenate(ab) for ab in zip(rows, flat)]
                    else:
                        orow[j] = flat
            self.supplied[0][f] = rows
            for j in range(len(self.outs)):
                self.supplied[1][j][f] = orow[j]
        if bad or self.bad is None or fids is None or self.bad[3] in fids:
            self.bad = bad

    def shaped(self, pts, s, form, odd):
        scalar = np.ndim(SHAPES[s]) == 0 and not odd
        if form == 'float':
            return [float(v[0]) for v in pts] if scalar else [v.tolist() for v in pts]
        if form == 'int':
            return [int(v[0]) for v in pts] if scalar else [v.astype(int) for v in pts]
        if form == 'array':
            return np.array([v[0] for v in pts]) if scalar else np.array(pts)
        if form == 'nested':
            return [[float(v[0])] for v in pts] if scalar else [v.tolist() for v in pts]
        if form == 'mixed':
            return [int(v[0]) if k % 2 == 0 else float(v[0]) for k, v in enumerate(pts)] if scalar else [v if k % 2 else v.tolist() for k, v in enumerate(pts)]
        return tuple(np.float64(v[0]) for v in pts) if scalar else [np.array(v, object) for v in pts] if False else [np.array(v) for v in pts]

    def move(self):
        self.moves += 1
        for j, (n, s) in enumerate(zip(self.iname, self.ins)):
            v = .3 * self.moves + .7 * j + (np.arange(np.size(SHAPES[s])).reshape(np.shape(SHAPES[s])) * .45 if np.ndim(SHAPES[s]) else 0.)
            self.p['i%d.o' % j] = v
            self.inputs[n] = v

    def flat(self):
        return np.concatenate([np.ravel(self.inputs[n]) for n in self.iname])

    # ---- what has to happen
    def train(self):
        """reference for the training of all outputs"""
        xs, ys = [], [[] for _ in self.outs]
        for f in self.fids:
            new = np.array(self.supplied[0][f]).reshape(-1, self.isize)
            xs.append(np.vstack([self.known[0][f], new]) if self.warm else new)
            for j, m in enumerate(self.osize):
                new = np.array(self.supplied[1][j][f]).reshape(-1, m)
                ys[j].append(np.vstack([self.known[1][j][f], new]) if self.warm else new)
        self.known = xs, ys
        self.pending = False

    def run(self, R, hist):
        del LOG[:]
        if self.pending and self.bad is None:
            total = sum(len(r) for r in self.supplied[0]) + (sum(len(k) for k in self.known[0]) if self.warm else 0)
            if total == 0:
                return False        # left open
            if any(len(r) == 0 and not (self.warm and len(k)) for r, k in zip(self.supplied[0], self.known[0])):
                return False
        if self.pending and self.bad is not None:
            try:
                self.p.run()
                R.fail('inconsistent-data-accepted:%s' % self.bad[0], [hist, self.bad])
                return False
            except Exception as e:
                R.check(self.mm.train, 'training-forgotten', [hist, self.bad])
                R.check(not any(c[0] == 'predict' for c in LOG), 'predicted-without-training', [hist, repr(e)])
            return True
        train = self.pending
        try:
            self.p.run()
        except Exception as e:
            R.fail('run:%s' % type(e).__name__, [hist, str(e)[:200]])
            return False
        if train:
            self.train()
        trained = [c for c in LOG if c[0] in ('train', 'multi')]
        want = [(self.known[0], y) for y in self.known[1]] if train else []
        R.check(len(trained) == len(want), 'number-of-trainings', [hist, len(trained), len(want)])
        for (how, x, y), (wx, wy) in zip(trained, want):
            R.check(len(x) == len(wx) and all(a.shape == b.shape and np.allclose(a, b, 0, 1e-12) for a, b in zip(x, wx)), 'training-inputs', [hist, x, wx])
            R.check(len(y) == len(wy) and all(a.shape == b.shape and np.allclose(a, b, 0, 1e-12) for a, b in zip(y, wy)), 'training-outputs', [hist, y, wy])
        R.check(not self.mm.train, 'train-flag', hist)
        for c in LOG:
            if c[0] == 'predict':
                R.check(np.allclose(c[1], self.flat(), 0, 1e-12), 'predicted-at', [hist, c[1], self.flat()])
        self.outputs(R, hist)
        return True

    def outputs(self, R, hist):
        x = self.flat()
        for j, (n, s) in enumerate(zip(self.oname, self.outs)):
            A, c = coef(self.known[0], self.known[1][j])
            w = c + A.dot(np.sin(x))
            v = self.p['mm.' + n]
            R.check(np.shape(v) == np.shape(SHAPES[s]) and np.allclose(np.ravel(v), w, 1e-10, 1e-10), 'output', [hist, n, v, w])
        R.step()

    def derivs(self, R, hist, modes=('fwd', 'rev'), tol=1e-9):
        x = self.flat()
        for mode in modes:
            try:
                J = self.p.calc_gradient(['i%d.o' % k for k in range(len(self.iname))], ['mm.' + n for n in self.oname], mode=mode, return_format='array')
            except Exception as e:
                R.fail('derivative:%s' % type(e).__name__, [hist, mode, str(e)[:200]])
                continue
            want = np.vstack([coef(self.known[0], y)[0] * np.cos(x) for y in self.known[1]])
            R.check(J.shape == want.shape and np.allclose(J, want, tol, tol * max(1, np.max(np.abs(want)))), 'derivative', [hist, mode, J, want])
            R.step()


# ------------------------------------------------------------------ all shapes and forms
def run_mix(case, R):
    _, ins, outs, form, nfi = case
    for own in (True, False):
        m = Model(ins, outs, nfi, own=own)
        for k, n in enumerate((2, 1, 3)):
            m.data(n, form)
            m.move()
            if k:
                m.mm.train = True
                m.pending = True
            if k == 2:
                m.mm.warm_restart = m.warm = True
            if not m.run(R, [own, k]):
                break
            m.derivs(R, [own, k])
            R.state([case, own, k])
            m.move()
            if not m.run(R, [own, k, 'again']):
                break


# ------------------------------------------------------------------ all histories
def run_hist(case, R):
    _, first, ins, outs, nfi, depth = case

    def rec(hist):
        if not replay(hist, ins, outs, nfi, R):
            return
        if len(hist) < depth:
            for op in OPS:
                rec(hist + [op])
    rec(list(first))


def replay(hist, ins, outs, nfi, R):
    """useful sequences end with a run; others only lead to them"""
    if any(a == b and a not in ('run', 'move') for a, b in zip(hist, hist[1:])):
        return False
    if hist[-1] != 'run':
        return True
    m = Model(ins, outs, nfi)
    m.data(2, 'float')
    m.run(R, ['first'])
    m.move()
    for k, op in enumerate(hist):
        if op == 'run':
            if not m.run(R, hist[:k + 1]):
                return False
        elif op == 'move':
            m.move()
        elif op in ('data1', 'data2'):
            m.data(int(op[-1]), 'float')
        elif op == 'empty':
            m.data(0, 'float', fids=[0])
        elif op == 'badcount':
            m.data(2, 'float', bad=('badcount', 1, len(outs) - 1, m.fids[-1]))
        elif op == 'badsize':
            m.data(2, 'float', bad=('badsize', 0, [i for i, s in enumerate(ins) if s != 's'][0], m.fids[-1]))
        elif op == 'ask':
            m.mm.train = m.pending = True
        elif op == 'warm':
            m.mm.warm_restart = m.warm = True
        elif op == 'cold':
            m.mm.warm_restart = m.warm = False
        elif op == 'setup':
            m.p.setup(check=False)
            m.reset()
            m.inputs = dict((n, SHAPES[s]) for n, s in zip(m.iname, m.ins))
    if not m.pending:
        m.derivs(R, hist, modes=('fwd',) if len(hist) % 2 else ('rev',))
    R.state([hist, ins, nfi])
    return True


# ------------------------------------------------------------------ names and kinds of derivatives
NAMES = [['x'], ['train'], ['trainer', 'x'], ['x', 'training_x'], ['a', 'b'], ['b', 'a'], ['x_fi2', 'y'], ['y', 'x:z'], ['x_fi2', 'x']]


def run_names(case, R):
    _, names, deriv, nfi = case
    for shapes in product('sv', repeat=len(names)):
        if nfi and ('x' in names and 'x_fi2' in names):
            continue        # takes the name of a training variable
        m = Model(list(shapes), ['s', 'v'], nfi, names=names, deriv=deriv)
        m.data(2, 'float')
        m.move()
        if m.run(R, [shapes]):
            m.derivs(R, [shapes], tol=1e-9 if deriv != 'fd' else 1e-4)
        R.state([case, shapes])


# ------------------------------------------------------------------ ways of building it in
def run_wiring(case, R):
    from openmdao.api import Problem, Group, MetaModel, IndepVarComp, DirectSolver, ExecComp
    kind = case[1]
    x = [1., 2., 4.]
    y = [[1., -1.], [0., 2.], [3., .5]]
    A, c = coef([np.array(x).reshape(3, 1)], [np.array(y)])

    def check(p, name, at, key, xname=None):
        R.check(np.allclose(p[name], c + A.dot(np.sin([at])), 1e-10), key, [kind, p[name], at])
        if xname:
            for mode in ('fwd', 'rev'):
                J = p.calc_gradient([xname], [name], mode=mode, return_format='array')
                R.check(np.allclose(J, A * np.cos(at), 1e-6, 1e-6), key + ':derivative', [kind, mode, J])
        R.state([kind, at])
        R.step()

    mm = MetaModel()
    p = Problem(root=Group())
    if kind in ('connected', 'promoted', 'group', 'group-fd', 'group-direct'):
        mm.add_param('x', 0.)
        mm.add_output('y', np.zeros(2), surrogate=make_surrogate())
        p.root.add('i', IndepVarComp('x', 0.), promotes=['x'])
        g = p.root
        if kind.startswith('group'):
            g = p.root.add('g', Group(), promotes=['*'])
            if kind == 'group-fd':
                g.deriv_options['type'] = 'fd'
            elif kind == 'group-direct':
                g.ln_solver = DirectSolver()
        g.add('mm', mm, promotes=['*'])
        if kind == 'connected':
            p.root.add('tx', IndepVarComp('d', list(x)))
            p.root.add('ty', IndepVarComp('d', copy.deepcopy(y)))
            p.root.connect('tx.d', 'train:x')
            p.root.connect('ty.d', 'train:y')
        p.setup(check=False)
        if kind != 'connected':
            p['train:x'] = list(x)
            p['train:y'] = copy.deepcopy(y)
        for at in (.5, 3.):
            del LOG[:]
            p['x'] = at
            p.run()
            check(p, 'y', at, 'wiring', 'x')
    elif kind == 'preset':
        for arr in (False, True):
            mm = MetaModel()
            mm.add_param('x', 0., training_data=np.array(x) if arr else list(x))
            mm.add_output('y', np.zeros(2), training_data=np.array(y) if arr else copy.deepcopy(y), surrogate=make_surrogate())
            p = Problem(root=Group())
            p.root.add('mm', mm)
            for n in (1, 2):
                p.setup(check=False)
                p['mm.x'] = .5 * n
                p.run()
                check(p, 'mm.y', .5 * n, 'wiring')
    elif kind in ('default', 'shared-default'):
        mm.add_param('x', 0.)
        mm.add_output('y', np.zeros(2))
        own = make_surrogate()
        mm.add_output('z', 0., surrogate=own)
        mm.add_output('w', 0.)
        s = mm.default_surrogate = make_surrogate()
        mm2 = MetaModel()
        mm2.add_param('x', 0.)
        mm2.add_output('y', np.zeros(2))
        mm2.default_surrogate = s
        p.root.add('mm', mm)
        p.root.add('m2', mm2)
        p.setup(check=False)
        for m in ('mm', 'm2'):
            p[m + '.train:x'] = list(x)
            p[m + '.train:y'] = copy.deepcopy(y) if m == 'mm' else [[-v for v in r] for r in y]
        p['mm.train:z'] = [5., 6., 7.]
        p['mm.train:w'] = [8., 3., 1.]
        p['mm.x'] = p['m2.x'] = .5
        p.run()
        check(p, 'mm.y', .5, 'wiring')
        R.check(np.allclose(p['m2.y'], -p['mm.y']), 'wiring', [kind, p['m2.y']])
        for n, d in (('z', [5., 6., 7.]), ('w', [8., 3., 1.])):
            a, b = coef([np.array(x).reshape(3, 1)], [np.array(d).reshape(3, 1)])
            R.check(np.allclose(p['mm.' + n], b + a.dot(np.sin([.5]))), 'wiring', [kind, n])
        R.check(own.trained, 'wiring', 'own surrogate')
    elif kind == 'missing':
        mm.add_param('x', 0.)
        mm.add_output('y', np.zeros(2))
        mm.add_output('z', 0., surrogate=make_surrogate())
        p.root.add('mm', mm)
        out = io.StringIO()
        p.setup(out_stream=out)
        R.check("'y'" in out.getvalue() and "'z'" not in out.getvalue().split('surrogate model')[1][:60], 'missing-report', out.getvalue()[:300])
        p['mm.train:x'] = list(x)
        p['mm.train:y'] = y
        p['mm.train:z'] = x
        try:
            p.run()
            R.fail('missing-accepted', kind)
        except RuntimeError as e:
            R.check("'y'" in str(e), 'missing-message', str(e))
    elif kind == 'int-input':
        for val in (0., np.zeros(1), [0.], 0):
            mm = MetaModel()
            mm.add_param('x', copy.deepcopy(val))
            mm.add_output('y', np.zeros(2), surrogate=make_surrogate())
            p = Problem(root=Group())
            p.root.add('mm', mm)
            p.setup(check=False)
            p['mm.train:x'] = list(x)
            p['mm.train:y'] = copy.deepcopy(y)
            p['mm.x'] = [2.] if isinstance(val, list) else np.array([2.]) if isinstance(val, np.ndarray) else 2 if isinstance(val, int) else 2.
            p.run()
            check(p, 'mm.y', 2., 'wiring')
