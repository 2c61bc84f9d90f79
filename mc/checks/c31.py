"""C31: the components that are shipped compute what they document, and so do their derivatives."""
from itertools import product, permutations
import warnings
import numpy as np

PID = 'C31'
LEVEL = 'model_checking'
RULE = ('bounded exhaustive enumeration: LinearSystem (matrices x sizes x where it stands x linear solver at the root and around it x nonlinear '
        'solver x histories of new inputs), UnitComp (source, own and target units x shapes x '
        'position x solvers), ConstraintComp (expressions x operators x spacing x shapes, and texts that are no constraint) and '
        'IndepVarComp (ways to declare x value kinds x metadata) run on the real code, each in both modes; values and derivatives are compared with '
        'closed forms in numpy')
ASSUMPTIONS = ['a constraint "a > b" is reported as b-a and "a < b" as a-b, so it is satisfied when not positive; = is taken like <']
NOTE = 'all combinations in the bounds are run'

MATS = {1: [[[2.]], [[-.5]]],
        2: [[[3., 1.], [.5, 2.]], [[0., 2.], [1., 0.]], [[1., 4.], [-2., .5]]],
        3: [[[4., 1., 0.], [0., 3., .5], [1., 0., 2.]], [[0., 0., 2.], [1., 0., 0.], [0., 3., 1.]]]}
LEN = {'m': 1., 'cm': .01, 'ft': .3048, 'inch': .0254}


def cases(tier):
    q = tier == 'quick'
    out = []
    k = 0
    for n, where, ln, below, nl in product((1, 2, 3), ('root', 'group', 'deep'), ('gs', 'gmres', 'direct'), ('gs', 'gmres', 'direct'),
                                           ('run', 'nlgs', 'newton', 'newton0')):
        if where == 'root' and below != 'gs':
            continue
        if ln == 'gs' and where == 'root':
            continue           # a group with states below needs a solver that can handle them
        mats = range(len(MATS[n]))
        if q:
            mats = [k % len(MATS[n])]
            k += 1
        for m in mats:
            out.append(['ls', n, m, where, ln, below, nl])
    for src, own, tgt, shape, where, ln in product(LEN, LEN, LEN, ('1', '2', '2x2', '3t'), ('root', 'group'), ('gs', 'gmres', 'direct')):
        if q and (len({src, own, tgt}) == 1 and src != 'm' or (len(out) % 2 and ln != 'gs')):
            k += 1
            if k % 3:
                continue
        out.append(['uc', src, own, tgt, shape, where, ln])
    sides = ['x', 'y', '2.*x', 'x-y', 'x*y+1.', '0', '0.', '3.5', '-2']
    for lhs, op, rhs, sp in product(sides, ('<', '>', '<=', '>=', '='), sides, ('', ' ')):
        if not any(c in 'xy' for c in lhs + rhs):
            continue
        out.append(['cc', lhs, op, rhs, sp])
    for text in ('x', '', 'x == 1', 'x==y', 'x < y < 2', 'x > 1 > y', 'x = y = 1', 'x ! 2', '1 <= x <= 2', 'x => y => 1'):
        out.append(['bad', text])
    for form, kind, meta in product(('args', 'kwargs', 'tuple', 'tuple3', 'tuples', 'gen', 'mixed'), ('float', 'array', 'matrix', 'int', 'str', 'list', 'bool'),
                                    ('', 'units', 'bounds')):
        if meta and kind not in ('float', 'array', 'matrix'):
            continue
        out.append(['iv', form, kind, meta])
    for bad in ('novalue', 'promotes', 'number', 'badtuple', 'notuple', 'pair', 'long'):
        out.append(['ivbad', bad])
    return out


def run(case, R):
    R.state(case)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()[case[0]](case, R)
    R.trace()


def solver(name):
    from openmdao.api import LinearGaussSeidel, ScipyGMRES, DirectSolver
    if name == 'gs':
        return LinearGaussSeidel()
    if name == 'gmres':
        return ScipyGMRES()
    s = DirectSolver()
    if name == 'assemble':
        s.options['jacobian_method'] = 'assemble'
    return s


def same(a, b, tol=1e-8):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=tol, atol=tol)


def ls(case, R):
    from openmdao.api import Problem, Group, IndepVarComp, LinearSystem, ExecComp, Newton, NLGaussSeidel
    _, n, m, where, ln, below, nl = case
    A0 = np.array(MATS[n][m])
    b0 = np.array([1., -2., .5][:n])
    prob = Problem(root=Group())
    root = prob.root
    root.add('p', IndepVarComp([('A', A0.copy()), ('b', b0.copy()), ('s', 1.5)]))
    root.add('h', ExecComp('y = s*b', b=np.zeros(n), y=np.zeros(n)))
    g, path = root, ''
    for i in range({'root': 0, 'group': 1, 'deep': 2}[where]):
        g = g.add('g%d' % i, Group())
        g.ln_solver = solver(below)
        path += 'g%d.' % i
    if where != 'root' and below == 'gs':
        g.ln_solver.options['maxiter'] = 2         # a group with states needs more than one sweep
    g.add('l', LinearSystem(n))
    g.add('e', ExecComp('z = x**2', x=np.zeros(n), z=np.zeros(n)))
    g.connect('l.x', 'e.x')
    root.connect('p.A', path + 'l.A')
    root.connect('p.b', 'h.b')
    root.connect('p.s', 'h.s')
    root.connect('h.y', path + 'l.b')
    root.ln_solver = solver(ln)
    if ln == 'gs':
        root.ln_solver.options['maxiter'] = 2
    top = g if where != 'deep' else root
    if nl == 'nlgs':
        top.nl_solver = NLGaussSeidel()
    elif nl != 'run':
        top.nl_solver = Newton()
        top.nl_solver.options['solve_subsystems'] = nl == 'newton'
        top.nl_solver.options['atol'] = 1e-13
    if nl != 'run':
        top.nl_solver.options['iprint'] = -1
    wrt = ['p.A', 'p.b', 'p.s']
    of = [path + 'l.x', path + 'e.z']
    prob.setup(check=False)
    points = [(A0, b0, 1.5), (A0.T + 2. * np.eye(n), b0[::-1] + 1., 1.5), (A0, b0 * 0., -2.), (A0, b0, 1.)]
    for A, b, s in points:
        prob['p.A'], prob['p.b'], prob['p.s'] = A, b, s
        prob.run()
        R.step()
        inv = np.linalg.inv(A)
        x = inv.dot(s * b)
        ok = R.check(same(prob[of[0]], x) and same(prob[of[1]], x * x), 'ls:value', lambda: '%s for %s' % (prob[of[0]], x))
        if not ok:
            return
        dA = -np.einsum('ij,k->ijk', inv, x).reshape(n, n * n)
        want = {'p.A': dA, 'p.b': s * inv, 'p.s': inv.dot(b).reshape(n, 1)}
        for mode in ('fwd', 'rev'):
            J = prob.calc_gradient(wrt, of, mode=mode, return_format='dict')
            R.step()
            for w in wrt:
                R.check(same(J[of[0]][w], want[w], 1e-6), 'ls:derivative:' + mode, lambda: 'x by %s %s for %s' % (w, J[of[0]][w], want[w]))
                R.check(same(J[of[1]][w], 2 * x[:, None] * want[w], 1e-6), 'ls:derivative:' + mode, lambda: 'x*x by %s' % w)
        R.check(same(prob[of[0]], x) and same(prob['p.A'], A), 'ls:changed-by-gradient', '')


def uc(case, R):
    from openmdao.api import Problem, Group, IndepVarComp, UnitComp, ExecComp
    _, src, own, tgt, shape, where, ln = case
    val = {'1': 2.5, '2': np.array([2.5, -1.]), '2x2': np.array([[2.5, -1.], [0., 4.]]), '3t': np.array([1., 2., 3.])}[shape]
    shp = {'1': 1, '2': 2, '2x2': (2, 2), '3t': (3,)}[shape]
    prob = Problem(root=Group())
    root = prob.root
    root.add('p', IndepVarComp('x', val, units=src))
    g, path = (root, '') if where == 'root' else (root.add('g', Group()), 'g.')
    g.add('u', UnitComp(shape=shp, param_name='i', out_name='o', units=own))
    zero = val * 0.
    root.add('e', ExecComp('y = 3.*x', units={'x': tgt}, x=zero, y=zero))
    root.connect('p.x', path + 'u.i')
    root.connect(path + 'u.o', 'e.x')
    root.ln_solver = solver(ln)
    prob.setup(check=False)
    n = np.size(val)
    for v in (val, val * -2. + 1.):
        prob['p.x'] = v
        prob.run()
        R.step()
        R.check(same(prob[path + 'u.o'], v * (LEN[src] / LEN[own])), 'uc:value', lambda: '%s' % prob[path + 'u.o'])
        R.check(same(prob['e.y'], 3. * v * (LEN[src] / LEN[tgt])), 'uc:value', lambda: '%s' % prob['e.y'])
        for mode in ('fwd', 'rev'):
            J = prob.calc_gradient(['p.x'], [path + 'u.o', 'e.y'], mode=mode, return_format='dict')
            R.step()
            R.check(same(J[path + 'u.o']['p.x'], np.eye(n) * (LEN[src] / LEN[own])), 'uc:derivative', lambda: '%s %s' % (mode, J))
            R.check(same(J['e.y']['p.x'], 3. * np.eye(n) * (LEN[src] / LEN[tgt])), 'uc:derivative', lambda: '%s %s' % (mode, J))


def cc(case, R):
    from openmdao.api import Problem, Group, IndepVarComp
    from openmdao.components.constraint import ConstraintComp
    _, lhs, op, rhs, sp = case
    xs = [c for c in 'xy' if c in lhs + rhs]
    prob = Problem(root=Group())
    for c, v in zip('xy', (1.5, -.75)):
        prob.root.add('p' + c, IndepVarComp(c, v))
    prob.root.add('c', ConstraintComp(lhs + sp + op + sp + rhs, out='con'))
    for c in xs:
        prob.root.connect('p%s.%s' % (c, c), 'c.' + c)
    prob.setup(check=False)

    def f(v):
        a, b = eval(lhs, {}, v), eval(rhs, {}, v)
        return b - a if op[0] == '>' else a - b
    for v in ({'x': 1.5, 'y': -.75}, {'x': -2., 'y': 3.}):
        for c in 'xy':
            prob['p%s.%s' % (c, c)] = v[c]
        prob.run()
        R.step()
        R.check(abs(prob['c.con'] - f(v)) < 1e-12, 'cc:value', lambda: '%s for %s' % (prob['c.con'], f(v)))
        for mode in ('fwd', 'rev'):
            J = prob.calc_gradient(['p%s.%s' % (c, c) for c in xs], ['c.con'], mode=mode)
            R.step()
            for k, c in enumerate(xs):
                d = (f(dict(v, **{c: v[c] + .5})) - f(dict(v, **{c: v[c] - .5})))      # exact: at most bilinear
                R.check(abs(J[0, k] - d) < 1e-10, 'cc:derivative', lambda: '%s %s for %s' % (c, J, d))


def bad(case, R):
    from openmdao.components.constraint import ConstraintComp
    R.step()
    try:
        ConstraintComp(case[1])
    except Exception as e:
        R.check(isinstance(e, ValueError), 'bad:error', repr(e))
    else:
        R.fail('bad:accepted', case[1])


VALUE = {'float': 2.5, 'array': np.array([1., -2.]), 'matrix': np.array([[1., 2., 3.], [4., 5., 6.]]), 'int': 7, 'str': 'some text', 'list': [1, 'a'], 'bool': True}


def iv(case, R):
    from openmdao.api import Problem, Group, IndepVarComp
    from copy import deepcopy
    _, form, kind, meta = case
    kw = {'': {}, 'units': {'units': 'cm'}, 'bounds': {'lower': -5., 'upper': 10., 'desc': 'words'}}[meta]
    v = deepcopy(VALUE[kind])
    other = [('w', 1.25), ('z', np.array([3., 4., 5.]), {'units': 'ft'})]
    if meta and form in ('tuple', 'gen') or not meta and form == 'tuple3':
        return
    comp = {'args': lambda: IndepVarComp('x', v, **kw), 'kwargs': lambda: IndepVarComp(name='x', val=v, **kw), 'tuple': lambda: IndepVarComp([('x', v)]),
            'tuple3': lambda: IndepVarComp((('x', v, kw),)), 'tuples': lambda: IndepVarComp([('x', v, kw)] + other),
            'gen': lambda: IndepVarComp((other[0], ('x', v))), 'mixed': lambda: IndepVarComp(tuple(other) + (('x', v, kw),))}[form]()
    prob = Problem(root=Group())
    prob.root.add('p', comp)
    prob.setup(check=False)
    R.step()

    def check(want, note):
        got = prob['p.x']
        R.check(np.array_equal(got, want) and np.shape(got) == np.shape(want) and (kind in ('float', 'array', 'matrix') or type(got) is type(want)), 'iv:value',
                lambda: '%s %r for %r' % (note, got, want))
    check(VALUE[kind], 'setup')
    prob.run()
    check(VALUE[kind], 'run')
    new = {'float': -1., 'array': np.array([5., 6.]), 'matrix': np.ones((2, 3)) * 9., 'int': 3, 'str': 'new', 'list': ['b'], 'bool': False}[kind]
    prob['p.x'] = new
    prob.run()
    R.step()
    check(new, 'set')
    for k, want in kw.items():
        R.check(prob.root.unknowns.metadata('p.x').get(k) == want, 'iv:metadata', lambda: '%s %s' % (k, prob.root.unknowns.metadata('p.x').get(k)))
    if form in ('tuples', 'mixed'):
        R.check(prob['p.w'] == 1.25 and list(prob['p.z']) == [3., 4., 5.] and prob.root.unknowns.metadata('p.z')['units'] == 'ft' and
                'units' not in prob.root.unknowns.metadata('p.w'), 'iv:others', '')
    R.check(np.array_equal(VALUE[kind], v), 'iv:caller-value-changed', lambda: repr(v))


def ivbad(case, R):
    from openmdao.api import IndepVarComp
    R.step()
    try:
        {'novalue': lambda: IndepVarComp('x'), 'promotes': lambda: IndepVarComp('x', 1., promotes=['x']), 'number': lambda: IndepVarComp(3, 1.),
         'badtuple': lambda: IndepVarComp([('x',)]), 'notuple': lambda: IndepVarComp(['x', 1.]), 'pair': lambda: IndepVarComp(('x', 1.)),
         'long': lambda: IndepVarComp([('x', 1., {}, 2)])}[case[1]]()
    except Exception as e:
        R.check(isinstance(e, ValueError), 'ivbad:error', repr(e))
    else:
        R.fail('ivbad:accepted', case[1])
