"""C19: expression components compute their expressions and exact derivatives."""
from itertools import product, permutations
import contextlib
import copy
import io
import math
import pickle
import warnings
import numpy as np
from scipy import special

PID = 'C19'
LEVEL = 'model_checking'
RULE = ('bounded exhaustive enumeration of programs: all expression trees of one and two operations (thorough: selected three) over every supported '
        'function, operator and leaf, on scalars, arrays, matrices and mixtures, at several points; all statement sequences over a set '
        'of statement forms (chains, element, slice and broadcast assignments, reductions, integers as indices); all combinations of variable '
        'names from a set built to collide (prefixes, namespaces, function and number look-alikes) with spellings of numbers, '
        'spaces, keywords and attributes; and all bad arguments. Values, classification and total derivatives in both modes are compared '
        'with an independent evaluator using dual numbers')
ASSUMPTIONS = ['functions that do not accept complex numbers (fabs, floor, hypot, atan2, ... and those of the math module) may refuse derivatives with an '
               'exception instead, as noted in the source; wrong values are never accepted',
               'numpy functions that discard imaginary parts (numpy.abs, numpy.linalg.norm) are only evaluated',
               'derivatives are compared where the expression is smooth, to 1e-7']
NOTE = 'all programs in the bounds are built, run and differentiated'
TOL = 1e-7


# ------------------------------------------------------------------ an independent evaluator: values with dense derivative columns
class Dual(object):
    def __init__(self, v, d):
        self.v = np.asarray(v, float)
        self.d = d            # list of arrays of the same shape, one per input entry
        self.bad = False


class Skip(Exception):
    """outside the smooth domain"""


def need(c):
    if not np.all(c):
        raise Skip()


U = {   # name: (value, derivative, domain)
    'sin': (np.sin, np.cos, None), 'cos': (np.cos, lambda v: -np.sin(v), None),
    'tan': (np.tan, lambda v: 1 / np.cos(v) ** 2, lambda v: np.abs(np.cos(v)) > .05),
    'exp': (np.exp, np.exp, lambda v: v < 6), 'expm1': (np.expm1, np.exp, lambda v: v < 6),
    'log': (np.log, lambda v: 1 / v, lambda v: v > .05), 'log10': (np.log10, lambda v: 1 / v / math.log(10), lambda v: v > .05),
    'log1p': (np.log1p, lambda v: 1 / (1 + v), lambda v: v > -.95), 'sqrt': (np.sqrt, lambda v: .5 / np.sqrt(v), lambda v: v > .05),
    'sinh': (np.sinh, np.cosh, lambda v: abs(v) < 5), 'cosh': (np.cosh, np.sinh, lambda v: abs(v) < 5),
    'tanh': (np.tanh, lambda v: 1 - np.tanh(v) ** 2, None),
    'asin': (np.arcsin, lambda v: 1 / np.sqrt(1 - v * v), lambda v: abs(v) < .95),
    'arcsin': (np.arcsin, lambda v: 1 / np.sqrt(1 - v * v), lambda v: abs(v) < .95),
    'acos': (np.arccos, lambda v: -1 / np.sqrt(1 - v * v), lambda v: abs(v) < .95),
    'arccos': (np.arccos, lambda v: -1 / np.sqrt(1 - v * v), lambda v: abs(v) < .95),
    'atan': (np.arctan, lambda v: 1 / (1 + v * v), None), 'arctan': (np.arctan, lambda v: 1 / (1 + v * v), None),
    'asinh': (np.arcsinh, lambda v: 1 / np.sqrt(1 + v * v), None), 'arcsinh': (np.arcsinh, lambda v: 1 / np.sqrt(1 + v * v), None),
    'acosh': (np.arccosh, lambda v: 1 / np.sqrt(v * v - 1), lambda v: v > 1.05),
    'arccosh': (np.arccosh, lambda v: 1 / np.sqrt(v * v - 1), lambda v: v > 1.05),
    'atanh': (np.arctanh, lambda v: 1 / (1 - v * v), lambda v: abs(v) < .95),
    'arctanh': (np.arctanh, lambda v: 1 / (1 - v * v), lambda v: abs(v) < .95),
    'erf': (special.erf, lambda v: 2 / math.sqrt(math.pi) * np.exp(-v * v), lambda v: abs(v) < 4),
    'erfc': (special.erfc, lambda v: -2 / math.sqrt(math.pi) * np.exp(-v * v), lambda v: abs(v) < 4),
    'gamma': (special.gamma, lambda v: special.gamma(v) * special.digamma(v), lambda v: (v > .2) & (v < 6)),
    'abs': (np.abs, np.sign, lambda v: abs(v) > .01),
    '-': (np.negative, lambda v: -np.ones_like(v), None), '+': (np.positive, np.ones_like, None),
}
REAL = {    # may refuse derivatives
    'fabs': (np.abs, np.sign, lambda v: abs(v) > .01),
    'floor': (np.floor, np.zeros_like, lambda v: abs(v - np.round(v)) > .01), 'ceil': (np.ceil, np.zeros_like, lambda v: abs(v - np.round(v)) > .01),
    'trunc': (np.trunc, np.zeros_like, lambda v: abs(v - np.round(v)) > .01),
    'degrees': (np.degrees, lambda v: 180 / math.pi * np.ones_like(v), None), 'radians': (np.radians, lambda v: math.pi / 180 * np.ones_like(v), None),
}
SCALAR = {'lgamma': (special.gammaln, special.digamma, lambda v: (v > .2) & (v < 6))}
U.update(REAL)
U.update(SCALAR)
B = {
    '+': (np.add, lambda a, b: (np.ones_like(a), np.ones_like(b)), None),
    '-': (np.subtract, lambda a, b: (np.ones_like(a), -np.ones_like(b)), None),
    '*': (np.multiply, lambda a, b: (b, a), None),
    '/': (np.divide, lambda a, b: (1 / b, -a / b ** 2), lambda a, b: abs(b) > .05),
    '**': (np.power, lambda a, b: (b * a ** (b - 1), a ** b * np.log(a)), lambda a, b: (a > .05) & (abs(b) < 5)),
    'pow': (np.power, lambda a, b: (b * a ** (b - 1), a ** b * np.log(a)), lambda a, b: (a > .05) & (abs(b) < 5)),
    'power': (np.power, lambda a, b: (b * a ** (b - 1), a ** b * np.log(a)), lambda a, b: (a > .05) & (abs(b) < 5)),
    'atan2': (np.arctan2, lambda a, b: (b / (a * a + b * b), -a / (a * a + b * b)), lambda a, b: (a * a + b * b > .05) & ((b > 0) | (abs(a) > .05))),
    'hypot': (np.hypot, lambda a, b: (a / np.hypot(a, b), b / np.hypot(a, b)), lambda a, b: np.hypot(a, b) > .05),
    'fmod': (np.fmod, lambda a, b: (np.ones_like(a), -np.trunc(a / b)), lambda a, b: (abs(b) > .05) & (abs(a / b - np.round(a / b)) > .01)),
    'copysign': (np.copysign, lambda a, b: (np.sign(a) * np.sign(b), np.zeros_like(b)), lambda a, b: (abs(a) > .01) & (abs(b) > .01)),
}
INFIX = ('+', '-', '*', '/', '**')
REFUSE = set(REAL) | set(SCALAR) | {'atan2', 'hypot', 'fmod', 'copysign'}


def ev(t, env):
    if isinstance(t, str):
        if t in env:
            return env[t]
        v = {'pi': math.pi, 'e': math.e}.get(t)
        if v is None:
            v = float(t)
        some = next(iter(env.values()))
        return Dual(v, [np.zeros(()) for _ in some.d])
    if len(t) == 2:
        f, df, dom = U[t[0]]
        a = ev(t[1], env)
        if dom is not None:
            need(dom(a.v))
        g = df(a.v)
        return Dual(f(a.v), [g * d for d in a.d])
    f, df, dom = B[t[0]]
    a, b = ev(t[1], env), ev(t[2], env)
    x, y = np.broadcast_arrays(a.v, b.v)
    if dom is not None:
        ok = dom(x, y)
        if t[0] in ('**',) and isinstance(t[2], str) and t[2] in ('2', '3', '2.'):
            ok = np.ones(())
        need(ok)
    if t[0] == '**' and isinstance(t[2], str) and t[2] in ('2', '3', '2.'):
        n = float(t[2])
        return Dual(x ** n, [n * x ** (n - 1) * da for da in a.d])
    ga, gb = df(x, y)
    with np.errstate(all='ignore'):
        return Dual(f(x, y), [ga * da + gb * db for da, db in zip(a.d, b.d)])


def text(t):
    if isinstance(t, str):
        return t
    if len(t) == 2:
        return '(%s%s)' % (t[0], text(t[1])) if t[0] in '+-' else '%s(%s)' % (t[0], text(t[1]))
    if t[0] in INFIX:
        return '(%s%s%s)' % (text(t[1]), t[0], text(t[2]))
    return '%s(%s,%s)' % (t[0], text(t[1]), text(t[2]))


def ops_of(t):
    return set() if isinstance(t, str) else {t[0]}.union(*[ops_of(s) for s in t[1:]])


def refuses(t):
    """a function without complex support is applied to something that depends on a variable"""
    return bool(ops_of(t) & REFUSE)


# ------------------------------------------------------------------ enumerations
LEAVES = ['x', 'z']
CONSTS = ['2.', 'pi', '.5']


def leaves2(op):
    return [(a, b) for a in LEAVES + CONSTS for b in LEAVES + CONSTS if a in LEAVES or b in LEAVES]


def trees1():
    out = []
    for u in sorted(U):
        out += [(u, l) for l in LEAVES]
    for b in sorted(B):
        out += [(b, l, r) for l, r in leaves2(b)]
    out += [('**', 'x', '2'), ('**', 'z', '3'), ('**', 'x', '2.')]
    return out


def trees2(scalar_only=False):
    out = []
    one = [(u, 'x') for u in sorted(U)] + [(b, 'x', 'z') for b in sorted(B)] + [('*', '2.', 'z'), ('/', '1', 'z'), ('**', 'z', '2')]
    for t in one:
        for u in sorted(U):
            out.append((u, t))
        for b in sorted(B):
            out += [(b, t, 'z'), (b, 'x', t), (b, t, '2.'), (b, '.5', t)]
    return out


def trees3():
    out = []
    us = ['sin', 'exp', 'log', 'sqrt', 'abs', '-', 'tanh', 'gamma']
    bs = ['+', '-', '*', '/', '**', 'pow']
    two = [(u, (b, 'x', 'z')) for u in us for b in bs] + [(b, (u, 'x'), 'z') for u in us for b in bs] + [(u, (v, 'z')) for u in us for v in us]
    for a in two:
        for u in us:
            out.append((u, a))
        for b in bs:
            for v in us:
                out.append((b, a, (v, 'x')))
    return out


SHAPES = [('s', 's'), ('v', 'v'), ('m', 'm'), ('s', 'v'), ('v', 's'), ('1', '1')]
PTS = [(.3, .7), (1.4, -.6), (-.8, 2.3), (2.6, 1.2)]
SHAPE = {'s': (), 'v': (3,), 'm': (2, 2), '1': (1,)}


def point(shape, v):
    s = SHAPE[shape]
    if s == ():
        return float(v)
    n = int(np.prod(s))
    return (v + .11 * np.arange(n) * (1 if v < 1 else -1)).reshape(s)


CHUNKS = 24


def cases(tier):
    q = tier == 'quick'
    out = []
    for sh in range(len(SHAPES)):
        for k in range(6):
            out.append(['tree1', sh, k, 6])
    for sh in range(len(SHAPES)):
        for k in range(CHUNKS):
            out.append(['tree2', sh, k, CHUNKS])
    if not q:
        for sh in (0, 1, 3):
            for k in range(60):
                out.append(['tree3', sh, k, 60])
    for k in range(len(STATEMENTS)):
        out.append(['prog', k, 2 if q else 3])
    for k in range(len(NAMES)):
        out.append(['names', k])
    for k in range(len(SPELL)):
        out.append(['spell', k])
    out.append(['bad'])
    for op in ('>', '<', '>=', '<=', '='):
        out.append(['constraint', op])
    return out


def run(case, R):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()):
            with np.errstate(all='ignore'):
                globals()['run_' + case[0]](case, R)
    R.trace()


# ------------------------------------------------------------------ building and measuring
def build(exprs, ins, inits, comp=None, sub=False):
    """ins: {name: value} connected from an independent variable; returns problem"""
    from openmdao.api import Problem, Group, IndepVarComp, ExecComp
    p = Problem(root=Group())
    for i, n in enumerate(sorted(ins)):
        p.root.add('i%d' % i, IndepVarComp('o', copy.deepcopy(ins[n])))
    c = comp or ExecComp(exprs, inits=dict(inits))
    p.root.add('C', c)
    for i, n in enumerate(sorted(ins)):
        p.root.connect('i%d.o' % i, 'C.' + n)
    p.setup(check=False)
    return p


def close(a, b, tol=TOL):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.all(np.abs(a - b) <= tol * (1 + np.abs(b)))


def duals(ins):
    n = sum(np.size(v) for v in ins.values())
    env, k = {}, 0
    for name in sorted(ins):
        v = np.asarray(ins[name], float)
        d = [np.zeros(v.shape) for _ in range(n)]
        for i in range(v.size):
            e = np.zeros(v.size)
            e[i] = 1.
            d[k] = e.reshape(v.shape)
            k += 1
        env[name] = Dual(v, d)
    return env


def columns(dual, shape):
    """Jacobian rows x all input entries"""
    return np.array([np.broadcast_to(d, shape).ravel() for d in dual.d]).T


def jac(p, outs, ins, mode):
    names = sorted(ins)
    J = p.calc_gradient(['i%d.o' % i for i in range(len(names))], ['C.' + o for o in outs], mode=mode, return_format='dict')
    return dict((o, np.hstack([J['C.' + o]['i%d.o' % i] for i in range(len(names))])) for o in outs)


# ------------------------------------------------------------------ expression trees
def run_tree1(case, R):
    trees(trees1(), case, R)


def run_tree2(case, R):
    trees(trees2(), case, R)


def run_tree3(case, R):
    trees(trees3(), case, R)


def trees(all_trees, case, R):
    kind, sh, k, n = case
    sx, sz = SHAPES[sh]
    mine = [t for i, t in enumerate(all_trees) if i % n == k]
    if (sx, sz) != ('s', 's'):
        mine = [t for t in mine if not ops_of(t) & set(SCALAR)]
    for pt in PTS:
        ins = {'x': point(sx, pt[0]), 'z': point(sz, pt[1])}
        env = duals(ins)
        good = {False: [], True: []}
        for t in mine:
            try:
                d = ev(t, env)
                w = np.asarray(d.v)
                if np.all(np.isfinite(w)) and np.all(np.abs(w) < 1e6) and all(np.all(np.isfinite(c)) and np.all(np.abs(c) < 1e6) for c in d.d):
                    good[refuses(t)].append((t, d))
            except Skip:
                pass
        # expressions that can be differentiated share components, the others get one each
        groups = [good[False][i:i + 12] for i in range(0, len(good[False]), 12)] + [[g] for g in good[True]]
        for group in groups:
            if group:
                measure(group, ins, R, pt)


def measure(group, ins, R, pt):
    outs = ['y%d' % i for i in range(len(group))]
    exprs = ['%s=%s' % (o, text(t)) for o, (t, _) in zip(outs, group)]
    used = dict((n, v) for n, v in ins.items() if any(n in vars_of(t) for t, _ in group))
    inits = dict((o, np.zeros(d.v.shape) if d.v.shape else 0.) for o, (_, d) in zip(outs, group))
    inits.update((n, np.zeros(np.shape(v)) if np.shape(v) else 0.) for n, v in used.items())
    p = build(exprs, used, inits)
    p.run()
    keep = [i for i, n in enumerate(index(ins)) if n in used]
    for o, (t, d) in zip(outs, group):
        R.check(close(p['C.' + o], d.v, 1e-12), 'value', [text(t), pt, np.shape(ins['x']), p['C.' + o], d.v])
        R.state([text(t), pt, np.shape(ins['x']), np.shape(ins['z'])])
        R.step()
    for mode in ('fwd', 'rev'):
        try:
            J = jac(p, outs, used, mode)
        except TypeError as e:
            R.check(len(group) == 1 and refuses(group[0][0]), 'derivative:refused', [exprs, repr(e)])
            continue
        for o, (t, d) in zip(outs, group):
            want = columns(d, d.v.shape)[:, keep]
            R.check(close(J[o], want), 'derivative', [text(t), pt, mode, np.shape(ins['x']), J[o], want])
            R.step()


def index(ins):
    out = []
    for n in sorted(ins):
        out += [n] * np.size(ins[n])
    return out


def vars_of(t):
    return {t} & {'x', 'z'} if isinstance(t, str) else set().union(*[vars_of(s) for s in t[1:]])


# ------------------------------------------------------------------ statement sequences; derivatives by the reference with exact polynomials
# (text, function on a dict of arrays); all polynomial of low degree, so that central differences with step 1 are exact up to cubic
STATEMENTS = [
    ('y=2.*x+1.', lambda e: e.__setitem__('y', 2 * e['x'] + 1 + 0 * e['y'])),
    ('y=s', lambda e: e.__setitem__('y', e['s'] + 0 * e['y'])),
    ('y=x*y', None),          # reads its own earlier value: only allowed after an assignment
    ('y[0]=x[2]*s', lambda e: e['y'].__setitem__(0, e['x'][2] * e['s'])),
    ('y[1:]=x[:2]*x[1:]', lambda e: e['y'].__setitem__(slice(1, None), e['x'][:2] * e['x'][1:])),
    ('y[:]=s*s', lambda e: e['y'].__setitem__(slice(None), e['s'] ** 2)),
    ('w=numpy.sum(x)', lambda e: e.__setitem__('w', e['x'].sum())),
    ('w=x.dot(y)', lambda e: e.__setitem__('w', e['x'].dot(e['y']))),
    ('w=x[0]*x[-1]-s', lambda e: e.__setitem__('w', e['x'][0] * e['x'][-1] - e['s'])),
    ('w=s*w', None),
    ('m=numpy.outer(x,x)[:2,1:]', lambda e: e.__setitem__('m', np.outer(e['x'], e['x'])[:2, 1:])),
    ('m[1,0]=w', lambda e: e['m'].__setitem__((1, 0), e['w'])),
    ('m[:,1]=x[:2]', lambda e: e['m'].__setitem__((slice(None), 1), e['x'][:2])),
    ('m=m.T', None),
    ('m[0]=s', lambda e: e['m'].__setitem__(0, e['s'])),
    ('w=x[n]*x[n-1]', lambda e: e.__setitem__('w', e['x'][1] * e['x'][0])),
    ('w=numpy.prod(x)', lambda e: e.__setitem__('w', e['x'].prod())),
    ('w=x.size*s', lambda e: e.__setitem__('w', 3 * e['s'])),
    ('m=y[0]', lambda e: e.__setitem__('m', e['y'][0] + 0 * e['m'])),
]
SELF = {'y=x*y': lambda e: e.__setitem__('y', e['x'] * e['y']), 'w=s*w': lambda e: e.__setitem__('w', e['s'] * e['w']),
        'm=m.T': lambda e: e.__setitem__('m', e['m'].T.copy())}
INIT = {'y': np.zeros(3), 'w': 0., 'm': np.zeros((2, 2)), 'x': np.zeros(3), 's': 0., 'n': 1}
READS = {'w=x.dot(y)': 'y', 'm[1,0]=w': 'w', 'm=y[0]': 'y', 'y=x*y': 'y', 'w=s*w': 'w', 'm=m.T': 'm'}


def target(stmt):
    return stmt[0]


def whole(stmt):
    return stmt[1] == '=' or stmt.startswith('y[:]')


def run_prog(case, R):
    _, k, depth = case
    for rest in range(depth):
        for idx in product(range(len(STATEMENTS)), repeat=rest):
            program((k,) + idx, R)


def interpret(stmts, x, s):
    e = {'x': x, 's': s, 'y': np.zeros(3), 'w': 0., 'm': np.zeros((2, 2))}
    for t in stmts:
        f = dict(STATEMENTS)[t] or SELF[t]
        f(e)
        e = dict((k, np.array(v, float)) for k, v in e.items())
    return e


def program(idx, R):
    stmts = [STATEMENTS[i][0] for i in idx]
    done = set()
    for t in stmts:
        if t in READS and READS[t] not in done:
            return          # reads an output that has not been assigned: would depend on the past
        if whole(t):
            done.add(target(t))
    outs = sorted(set(target(t) for t in stmts))
    body = ' '.join(stmts)
    reads = sorted(n for n in ('x', 's', 'n') if any(n in t.split('=', 1)[1].replace('numpy', '').replace('sum', '').replace('size', '')
                                                     .replace('outer', '') for t in stmts))
    ins = dict((n, v) for n, v in (('x', np.array([1.5, -.5, 2.])), ('s', .75)) if n in reads)
    inits = dict((n, copy.deepcopy(INIT[n])) for n in outs + reads)
    try:
        p = build(stmts if len(idx) > 1 else tuple(stmts), ins, inits)
        check_vars(p, outs, reads, R, stmts)
        x, s = ins.get('x', INIT['x']), ins.get('s', 0.)
        for again in (0, 1):
            if again:
                x = x[::-1] * .5 + .25
                s = s - 2.
                for i, n in enumerate(sorted(ins)):
                    p['i%d.o' % i] = x if n == 'x' else s
            p.run()
            want = interpret(stmts, x, s)
            part = [o for o in outs if not any(whole(t) for t in stmts if target(t) == o)]
            for o in outs:
                R.check(close(p['C.' + o], want[o], 1e-12), 'program:value', [stmts, o, again, p['C.' + o], want[o]])
            R.state([stmts, again])
            R.step()
            if not ins:
                continue
            wj = exact(stmts, ins, x, s, outs)
            for mode in ('fwd', 'rev'):
                J = jac(p, outs, ins, mode)
                for o in outs:
                    R.check(close(J[o], wj[o], 1e-6), 'program:derivative', [stmts, o, mode, J[o], wj[o]])
                R.step()
    except Exception as e:
        import traceback
        R.fail('program:exception:%s' % type(e).__name__, [stmts, traceback.format_exc()[-600:]])


def exact(stmts, ins, x, s, outs):
    """five-point differences with a complex free, high order formula"""
    cols = []
    for n in sorted(ins):
        for i in range(np.size(ins[n])):
            acc = dict((o, 0.) for o in outs)
            h = .25
            for c, k in ((1 / 280., -4), (-4 / 105., -3), (1 / 5., -2), (-4 / 5., -1), (4 / 5., 1), (-1 / 5., 2), (4 / 105., 3), (-1 / 280., 4)):
                x2, s2 = np.array(x), s
                if n == 'x':
                    x2[i] += k * h
                else:
                    s2 = s + k * h
                e = interpret(stmts, x2, s2)
                for o in outs:
                    acc[o] = acc[o] + c * e[o] / h
            cols.append(acc)
    return dict((o, np.array([np.ravel(c[o]) for c in cols]).T) for o in outs)


def check_vars(p, outs, ins, R, info):
    c = p.root.C
    R.check(sorted(c.unknowns.keys()) == sorted(outs), 'outputs', [info, sorted(c.unknowns.keys())])
    R.check(sorted(c.params.keys()) == sorted(ins), 'inputs', [info, sorted(c.params.keys())])


# ------------------------------------------------------------------ names
NAMES = ['x', 'xx', 'a:b', 'a:b:c', 'a:bc', 'xa:b', 'a:b0c', 'a0b', 'a:b1', 'e1', 'E', 'pix', 'sin_x', '_p', 'ab:cd:ef', 'exp2', 'a:sin', 'if_', 'n1e5',
         'numpy_', 'a:e', 'pi:x', 'b:c', 'c']


def run_names(case, R):
    out = NAMES[case[1]]
    for a, b in permutations([n for n in NAMES if n != out], 2):
        if a > b:
            continue
        # the same component with every order of mention
        stmts = ['%s=2.*%s-%s*%s' % (out, a, b, b)]
        try:
            p = build(stmts, {a: 1.5, b: .5}, {})
            check_vars(p, [out], [a, b], R, stmts)
            p.run()
            R.check(close(p['C.' + out], 2.75, 1e-12), 'names:value', [stmts, p['C.' + out]])
            J = jac(p, [out], {a: 0., b: 0.}, 'fwd')
            want = [[2., -1.]] if a < b else [[-1., 2.]]
            R.check(close(J[out], want), 'names:derivative', [stmts, J[out]])
        except Exception as e:
            R.fail('names:exception:%s' % type(e).__name__, [stmts, str(e)[:200]])
        R.state(stmts)
        R.step(2)
        # two statements: the first output is read by the second
        stmts = ['%s=3.*%s' % (a, b), '%s=%s+%s' % (out, b, a)]
        try:
            p = build(stmts, {b: .5}, {})
            check_vars(p, [a, out], [b], R, stmts)
            p.run()
            R.check(close(p['C.' + a], 1.5, 1e-12) and close(p['C.' + out], 2., 1e-12), 'names:value', [stmts, p['C.' + a], p['C.' + out]])
        except Exception as e:
            R.fail('names:exception:%s' % type(e).__name__, [stmts, str(e)[:200]])
        R.state(stmts)
        R.step()


# ------------------------------------------------------------------ spelling
V3 = np.array([1., 2., 4.])
SPELL = [   # expression, outputs, inputs, value of first output, derivative wrt x (None: not compared)
    ('y=1e2*x', 'y', 'x', 200., 100.), ('y=1E2*x', 'y', 'x', 200., 100.), ('y=1.e2*x', 'y', 'x', 200., 100.), ('y=1.5e+2*x', 'y', 'x', 300., 150.),
    ('y=1.5E-2*x', 'y', 'x', .03, .015), ('y=.5e1*x', 'y', 'x', 10., 5.), ('y=x*2e0', 'y', 'x', 4., 2.), ('y=0x1F*x', 'y', 'x', 62., 31.),
    ('y=x+e*x', 'y', 'x', 2 + 2 * math.e, 1 + math.e), ('y=e**x', 'y', 'x', math.e ** 2, math.e ** 2), ('y = x', 'y', 'x', 2., 1.),
    ('y =x ', 'y', 'x', 2., 1.), ('y\t=\tx', 'y', 'x', 2., 1.), ('y=sin (x)', 'y', 'x', math.sin(2.), math.cos(2.)),
    ('y=sin( x )', 'y', 'x', math.sin(2.), math.cos(2.)), ('y=-x', 'y', 'x', -2., -1.), ('y=x*x*x', 'y', 'x', 8., 12.), ('y=(x)', 'y', 'x', 2., 1.),
    ('y=((x)+(z))', 'y', 'xz', 3.5, 1.), ('y=x-z-x', 'y', 'xz', -1.5, 0.), ('y=x/z/2.', 'y', 'xz', 2 / 1.5 / 2, 1 / 3.), ('y=x**z', 'y', 'xz', 2 ** 1.5, 1.5 * 2 ** .5),
    ('y=-x**2', 'y', 'x', -4., -4.), ('y=2.*-x', 'y', 'x', -4., -2.), ('y=x*(1. if True else 3.)', 'y', 'x', 2., 1.),
    ('y=(x if not False else z)', 'y', 'xz', 2., 1.), ('y=numpy.sin(x)', 'y', 'x', math.sin(2.), math.cos(2.)), ('y=numpy.pi*x', 'y', 'x', 2 * math.pi, math.pi),
    ('y=numpy.exp(x)', 'y', 'x', math.exp(2), math.exp(2)), ('y=cmath.sin(x).real', 'y', 'x', math.sin(2.), None), ('y=numpy.linalg.norm(v)', 'y', 'v', math.sqrt(21.), None),
    ('y=numpy.sum(v, axis=0)', 'y', 'v', 7., None), ('y=numpy.sum(v*x, axis=None)', 'y', 'vx', 14., 7.), ('y=v.T.dot(v)*x', 'y', 'vx', 42., 21.),
    ('y=v.size*x', 'y', 'vx', 6., 3.), ('y=v.sum()*x', 'y', 'vx', 14., 7.), ('y=v.max()', 'y', 'v', 4., None), ('y=v[1]*x', 'y', 'vx', 4., 2.),
    ('y=numpy.vstack([v, v])[1][2]*x', 'y', 'vx', 8., 4.), ('y=len(v)*x', 'y', 'vx', 6., 3.), ('y=float(3)*x', 'y', 'x', 6., 3.),
    ('y=factorial(3)*x', 'y', 'x', 12., 6.), ('y=polygamma(1,2.)*x', 'y', 'x', float(2 * special.polygamma(1, 2.)), float(special.polygamma(1, 2.))),
    ('y=lgamma(3.)*x', 'y', 'x', 2 * math.lgamma(3), math.lgamma(3)), ('y=fsum([1.,2.])*x', 'y', 'x', 6., 3.), ('y=isnan(1.)*x', 'y', 'x', 0., 0.),
    ('y=ldexp(1.,3)*x', 'y', 'x', 16., 8.), ('y=modf(2.5)[0]*x', 'y', 'x', 1., .5), ('y=frexp(8.)[0]*x', 'y', 'x', 1., .5), ('y=isinf(1.)+x', 'y', 'x', 2., 1.),
    ('y,w=x,z', 'yw', 'xz', 2., 1.), ('y=w=x', 'yw', 'x', 2., 1.), ('y=abs(x)', 'y', 'x', 2., 1.), ('y=abs(-x)', 'y', 'x', 2., 1.), ('y=abs(-x*z)', 'y', 'xz', 3., 1.5),
    ('y=abs(x-z)-abs(z-x)+abs(x)', 'y', 'xz', 2., 1.), ('y=numpy.maximum(x,z)', 'y', 'xz', 2., None), ('y=numpy.where(False, x, z)', 'y', 'xz', 1.5, 0.),
    ('y=abs(v[0]-v[1])*x', 'y', 'vx', 2., 1.),
]


def run_spell(case, R):
    from openmdao.api import ExecComp
    expr, outs, ins, value, deriv = SPELL[case[1]]
    vals = {'x': 2., 'z': 1.5, 'v': V3}
    use = dict((n, vals[n]) for n in ins)
    inits = dict((n, np.zeros(3)) for n in ins if n == 'v')
    for form in ('str', 'list', 'tuple', 'pickle', 'deepcopy'):
        try:
            arg = expr if form in ('str', 'pickle', 'deepcopy') else [expr] if form == 'list' else (expr,)
            c = ExecComp(arg, **dict((k, v.copy()) for k, v in inits.items()))
            if form == 'pickle':
                c = pickle.loads(pickle.dumps(c))
            elif form == 'deepcopy':
                c = copy.deepcopy(c)
            p = build(None, use, {}, comp=c)
            check_vars(p, list(outs), list(ins), R, expr)
            p.run()
            R.check(close(p['C.' + outs[0]], value, 1e-12), 'spelling:value', [expr, form, p['C.' + outs[0]], value])
            if deriv is not None:
                k = [i for i, n in enumerate(index(use)) if n == 'x'][0]
                for mode in ('fwd', 'rev'):
                    J = jac(p, outs[:1], use, mode)[outs[0]][0, k]
                    R.check(close(J, deriv), 'spelling:derivative', [expr, form, mode, J, deriv])
        except Exception as e:
            R.fail('spelling:exception:%s' % type(e).__name__, [expr, form, str(e)[:200]])
        R.state([expr, form])
        R.step()


# ------------------------------------------------------------------ arguments
def run_bad(case, R):
    from openmdao.api import ExecComp
    good = [(('y=x+1.',), {}), (('y=x+1.',), {'x': 2.}), (('y=x+1.',), {'y': 3.}), (('y=x+1.',), {'inits': {'x': 2.}}), (('y=x',), {'units': {'x': 'm', 'y': 'cm'}}),
            ((['y=x', 'z=y'],), {'units': {'z': 'm'}}), (('y=a:x',), {'inits': {'a:x': 1.}, 'units': {'a:x': 'm'}})]
    bad = [(('y=x+1.',), {'xx': 2.}), (('y=x+1.',), {'inits': {'xx': 2.}}), (('y=x+1.',), {'units': {'xx': 'm'}}), (('y=x+1.',), {'sin': 2.}), (('y=sin(x)',), {'sin': 2.}),
           (('y=x+pi',), {'pi': 3.}), (('x+1.',), {}), (('y==x',), {}), (('y=x+',), {}), (('=x',), {}), (('y=',), {}), (('y=a:x',), {'x': 2.}), (('y=a:x',), {'a': 2.}),
           (('y=a:x',), {'inits': {'x': 2.}}), ((['y=x', 'z'],), {}), ((['y=x', 'z=w'],), {'v': 1.}), (('y=1e5*x',), {'e5': 2.}), (('y=numpy.sum(x, axis=0)',), {'axis': 1}),
           (('y=x if True else z',), {'else': 1})]
    for args, kw in good + bad:
        try:
            c = ExecComp(*args, **kw)
            ok = True
        except Exception:
            ok = False
        R.check(ok == ((args, kw) in good), 'argument:%s' % ('accepted' if ok else 'refused'), [args, kw])
        R.state([args, kw])
        R.step()
    # initial values are used and belong to the component alone
    a = np.array([1., 2., 3.])
    for kw in ({'x': a}, {'inits': {'x': a}}):
        p = build(None, {}, {}, comp=ExecComp('y=numpy.sum(x)', **kw))
        p.run()
        R.check(close(p['C.y'], 6.), 'initial-value', [list(kw), p['C.y']])
        p['C.x'] = np.array([7., 7., 7.])
        R.check(a.tolist() == [1., 2., 3.], 'initial-value-shared', [a])
        R.step()
    # integers are not differentiated but usable anywhere
    p = build(['y=x[n]*n'], {'x': V3}, {'x': np.zeros(3), 'n': 2})
    p.run()
    R.check(close(p['C.y'], 8.), 'integer', p['C.y'])
    for mode in ('fwd', 'rev'):
        try:
            R.check(close(jac(p, ['y'], {'x': V3}, mode)['y'], [[0., 0., 2.]]), 'integer', mode)
        except Exception as e:
            R.fail('integer', [mode, repr(e)])
    p = build(['y=x*len(t)'], {'x': 2.}, {'t': 'four'})
    p.run()
    R.check(close(p['C.y'], 8.), 'text', p['C.y'])
    for mode in ('fwd', 'rev'):
        try:
            R.check(close(jac(p, ['y'], {'x': 2.}, mode)['y'], [[4.]]), 'text', mode)
        except Exception as e:
            R.fail('text', [mode, repr(e)])


def run_constraint(case, R):
    """the deprecated constraint component: at most zero exactly if the constraint holds"""
    from openmdao.api import ConstraintComp
    op = case[1]
    sides = [('x', lambda x, z: x), ('z', lambda x, z: z), ('x+z', lambda x, z: x + z), ('x-z', lambda x, z: x - z), ('2.*x', lambda x, z: 2 * x), ('0', lambda x, z: 0.),
             ('0.0', lambda x, z: 0.), ('1.5', lambda x, z: 1.5), ('-x', lambda x, z: -x), ('-(x+z)', lambda x, z: -x - z)]
    for (lt, lf), (rt, rf) in product(sides, repeat=2):
        names = sorted(n for n in 'xz' if n in lt + rt)
        if not names:
            continue
        for sp in ('%s%s%s', '%s %s %s'):
            expr = sp % (lt, op, rt)
            for x, z in ((1., 2.), (-1., .5), (0., 0.), (2., -3.)):
                vals = {'x': x, 'z': z}
                for out in ('out', 'c'):
                    p = build(None, dict((n, vals[n]) for n in names), {}, comp=ConstraintComp(expr, out=out))
                    p.run()
                    d = lf(x, z) - rf(x, z)
                    want = -d if op.startswith('>') else d
                    R.check(close(p['C.' + out], want, 1e-12), 'constraint', [expr, x, z, p['C.' + out], want])
                    check_vars(p, [out], names, R, expr)
                    R.state([expr, x, z, out])
                    R.step()
    for bad in ('x', 'x==1', 'x+1', ''):
        try:
            ConstraintComp(bad)
            R.fail('constraint:accepted', bad)
        except Exception:
            pass
