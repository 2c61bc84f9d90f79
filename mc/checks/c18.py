"""C18: options accept exactly their declared names, types, ranges and values."""
from itertools import product
import copy
import io
import contextlib
import warnings
import numpy as np

PID = 'C18'
LEVEL = 'model_checking'
RULE = ('explicit-state exploration of the real OptionsDictionary against a reference dictionary: for every set of declarations all operation '
        'sequences up to the depth (set/get under real, deprecated and unknown names, valid and invalid types, values at, inside and outside '
        'limits, removing, re-adding, locking) are executed, and after every operation all options are read through every access method; then every '
        'option of every class of the package is set to valid and invalid values and read back with all other options and a second '
        'instance of the class; and every option of every object in set-up problems is tried for its lock')
ASSUMPTIONS = ['the type of an option is exactly the type of its default',
               'not-a-number is neither inside nor outside a range, and an enumeration decides by equality']
NOTE = 'all sequences in the bounds are executed'

DECL = {
    # name: (default, lower, upper, values, locked)
    'f': (0.5, 0., 1., None, False),
    'lo': (2, 1, None, None, False),
    'hi': (2., None, 3., None, True),
    'e': ('a', None, None, ['a', 'b', 3], False),
    'b': (False, None, None, None, True),
    's': ('', None, None, None, False),
    'l': ([], None, None, None, False),
    'n': (0, 0, 2, None, False),
    'el': (0, None, None, [0, 1], True),
    'z': (None, None, None, None, False),
}
SETS = [['f', 's'], ['lo', 'b'], ['hi', 'e'], ['n', 'l'], ['el', 'f'], ['z', 'e', 'n']]
VALS = {
    'f': [0., .25, 1., -1e-9, 1.0000001, 1, '0.5', None],
    'lo': [1, 7, 0, -3, 2., 'x'],
    'hi': [3., -9., 3.5, 3, None],
    'e': ['b', 3, 'a', 'c', 2, ''],
    'b': [True, False, 1, 'True', None],
    's': ['text', '', 0, None, b'x'],
    'l': [[1, 2], [], (1,), 'ab'],
    'n': [0, 2, 1, -1, 3, 1., True],
    'el': [1, 0, 2, -1],
    'z': [None, 1, ''],
}


def valid(decl, v):
    d, lo, hi, values, _ = decl
    if values is not None:
        return v in values
    return type(v) is type(d) and (lo is None or v >= lo) and (hi is None or v <= hi)


class Ref(object):
    def __init__(self, names):
        self.val = dict((n, DECL[n][0]) for n in names)
        self.alias = {}
        self.locked = False

    def target(self, n):
        if n in self.val:
            return n
        n = self.alias.get(n)
        return n if n in self.val else None

    def do(self, op):
        """performs the operation; returns whether it has to be refused"""
        k = op[0]
        if k == 'set':
            n = self.target(op[1])
            if n is None or not valid(DECL[n], op[2]) or self.locked and DECL[n][4]:
                return True
            self.val[n] = op[2]
        elif k == 'attr':
            return True
        elif k == 'add':
            if op[1] in self.val:
                return True
            self.val[op[1]] = DECL[op[1]][0]
        elif k == 'addbad':
            return True
        elif k == 'rm':
            self.val.pop(op[1], None)
        elif k == 'alias':
            if op[2] not in self.val:
                return True
            self.alias[op[1]] = op[2]
        elif k == 'lock':
            self.locked = op[1]
        return False


def apply(cls, o, op):
    k = op[0]
    if k == 'set':
        o[op[1]] = op[2]
    elif k == 'attr':
        setattr(o, op[1], op[2])
    elif k == 'add':
        d = DECL[op[1]]
        o.add_option(op[1], copy.copy(d[0]), lower=d[1], upper=d[2], values=d[3], lock_on_setup=d[4])
    elif k == 'addbad':
        o.add_option(op[1], op[2], **op[3])
    elif k == 'rm':
        o.remove_option(op[1])
    elif k == 'alias':
        o._add_deprecation(op[1], op[2])
    elif k == 'lock':
        cls.locked = op[1]


def alphabet(names, deep):
    ops = []
    for n in names:
        vals = VALS[n] if deep else VALS[n][:1] + [v for v in VALS[n][1:] if not valid(DECL[n], v)][:1]
        ops += [['set', n, v] for v in vals]
        ops.append(['rm', n])
        ops.append(['add', n])
    a, b = names[0], names[1]
    ops.append(['alias', 'old', a])
    ops.append(['alias', 'old2', b])
    ops += [['set', 'old', v] for v in (VALS[a] if deep else VALS[a][:2] + VALS[a][3:4])]
    ops += [['set', 'old2', v] for v in VALS[b][:3]]
    ops += [['set', 'nope', 1], ['attr', a, VALS[a][0]], ['attr', 'nope', 1],
            ['addbad', 'w', 5, {'lower': 6}], ['addbad', 'w', 5., {'upper': 4.}], ['addbad', 'w', 'q', {'values': ['r']}],
            ['lock', True], ['lock', False]]
    return ops


def cases(tier):
    q = tier == 'quick'
    out = []
    for i, names in enumerate(SETS):
        for k in range(len(alphabet(names, False))):
            out.append(['seq', i, False, k, 4 if q else 5])
        for k in range(len(alphabet(names, True))):
            out.append(['seq', i, True, k, 3 if q else 4])
    for n in sorted(TABLE()):
        out.append(['cls', n])
    for n in ALIASES:
        out.append(['old', n])
    for m in MODELS:
        for lock in ('plain', 'other', 'both', 'again'):
            out.append(['lock', m, lock])
    for name in ENUMS:
        out.append(['equal', name])
    return out


def run(case, R):
    from openmdao.api import OptionsDictionary
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()):
            OptionsDictionary.locked = False
            try:
                globals()['run_' + case[0]](case, R)
            finally:
                OptionsDictionary.locked = False


# ------------------------------------------------------------------ histories of one dictionary
def same(a, b):
    return type(a) is type(b) and (np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b)


def run_seq(case, R):
    from openmdao.api import OptionsDictionary
    _, i, deep, first, depth = case
    names = SETS[i]
    ops = alphabet(names, deep)

    def rec(hist):
        if not replay(OptionsDictionary, names, hist, R):
            return
        if len(hist) < depth:
            for op in ops:
                rec(hist + [op])
    rec([ops[first]])
    R.trace()


def replay(cls, names, hist, R):
    cls.locked = False
    o = cls()
    bystander = cls()
    for n in names:
        apply(cls, o, ['add', n])
        apply(cls, bystander, ['add', n])
    ref = Ref(names)
    refused = None
    for k, op in enumerate(hist):
        last = k == len(hist) - 1
        if op[0] == 'alias' and op[1] in ref.val or op[0] in ('add', 'addbad') and op[1] in ref.alias \
                or op[0] == 'add' and ref.locked and DECL[op[1]][4] and op[1] not in ref.val:
            return False        # unspecified
        want = ref.do(op)
        try:
            apply(cls, o, op)
            got = False
        except Exception as e:
            got = True
            err = e
        R.step()
        if last:
            ok = got == want
            R.check(ok, '%s:%s' % (op[0], 'accepted' if want else 'refused'), hist)
            if want and got and op[0] == 'set' and ref.target(op[1]) is None:
                R.check(isinstance(err, KeyError), 'set:undeclared-error', [hist, repr(err)])
            if not ok:
                return False
    R.state([names, sorted(ref.val.items(), key=repr), sorted(ref.alias.items()), ref.locked])
    good = [True]

    def ck(c, key, info):
        if not c:
            good[0] = False
            R.fail(key, [hist, info])
    look(o, ref, ck)
    for n in names:
        ck(same(bystander[n], DECL[n][0]), 'other-dictionary-changed', n)
    return good[0]


def look(o, ref, ck):
    """reads everything in every way"""
    for n in sorted(set(list(DECL) + list(ref.alias) + ['nope', 'w'])):
        t = ref.target(n)
        kind = 'alias' if n in ref.alias and n not in ref.val else 'name'
        try:
            v = o[n]
            ck(t is not None and same(v, ref.val[t]), 'read:%s' % kind, [n, v])
        except KeyError:
            ck(t is None, 'read:%s' % kind, [n, 'KeyError'])
        except Exception as e:
            ck(False, 'read:%s' % kind, [n, repr(e)])
        for default in ((), ('dflt',)):
            try:
                v = o.get(n, *default)
                ck(same(v, ref.val[t] if t is not None else (default or (None,))[0]), 'get:%s' % kind, [n, v])
            except Exception as e:
                ck(False, 'get:%s' % kind, [n, repr(e)])
        if t is not None or n not in ref.alias:
            ck((n in o) == (t is not None), 'contains:%s' % kind, n)
    for how in ('items', 'iteritems'):
        got = list(getattr(o, how)())
        ck(len(got) == len(ref.val) and all(n in ref.val and same(v, ref.val[n]) for n, v in got), how, got)


# ------------------------------------------------------------------ options of the package's own classes
NONNEG = ('float >= 0', [0., 1e-3, 7.5], [-1e-12, -1., 1, '1', None])
FLOAT = ('float', [-1., 0., 2.5], [1, 'x', None, True])
BOOL = ('bool', [True, False], [1, 0, 'yes', None])
STR = ('str', ['', 'abc'], [1, None, ['a']])
LIST = ('list', [[], ['a', 'b']], ['a', ('a',), None, 3])
DICT = ('dict', [{}, {'A': 'b'}], ['a', [], None])
INT = ('int', [0, 5, -2], [1., 'x', None, True])
NAT = ('int >= 0', [0, 1, 200], [-1, 1., 'x', None])
POS = ('int >= 1', [1, 2, 200], [0, -1, 1., None])


def enum(*v):
    return ('one of %r' % (v,), list(v), ['nothing', -7, None, ''])


DERIV = {'type': enum('user', 'fd', 'cs'), 'form': enum('forward', 'backward', 'central'), 'step_size': NONNEG, 'step_calc': enum('absolute', 'relative'),
         'check_type': enum('fd', 'cs'), 'check_form': enum('forward', 'backward', 'central'), 'check_step_size': NONNEG,
         'check_step_calc': enum('absolute', 'relative'), 'linearize': BOOL}
DEFAULTS = {'type': 'user', 'form': 'forward', 'step_size': 1e-6, 'step_calc': 'absolute', 'check_type': 'fd', 'check_form': 'forward',
            'check_step_size': 1e-6, 'check_step_calc': 'absolute', 'linearize': False}
IPRINT = enum(-1, 0, 1, 2)
MODE = enum('fwd', 'rev', 'auto')
REC = {'record_metadata': BOOL, 'record_unknowns': BOOL, 'record_params': BOOL, 'record_resids': BOOL, 'record_derivs': BOOL,
       'includes': LIST, 'excludes': LIST}
DRV = {}


def TABLE():
    """class -> (factory, {attribute: {option: domain}})"""
    S = {'iprint': IPRINT}
    SE = dict(S, err_on_maxiter=BOOL)
    D = {'deriv_options': DERIV}
    T = {
        'Newton': ({'options': dict(SE, atol=NONNEG, rtol=NONNEG, utol=NONNEG, maxiter=NAT, alpha=FLOAT, solve_subsystems=BOOL)}),
        'NLGaussSeidel': ({'options': dict(SE, atol=NONNEG, rtol=NONNEG, utol=NONNEG, maxiter=NAT, use_aitken=BOOL,
                                           aitken_alpha_min=FLOAT, aitken_alpha_max=FLOAT)}),
        'RunOnce': {'options': S},
        'Brent': {'options': dict(SE, xtol=FLOAT, rtol=FLOAT, maxiter=INT, state_var=STR, state_var_idx=INT, lower_bound=FLOAT,
                                  upper_bound=FLOAT, var_lower_bound=STR, var_upper_bound=STR)},
        'BackTracking': {'options': dict(SE, maxiter=NAT, solve_subsystems=BOOL, rho=FLOAT, c=FLOAT)},
        'LinearGaussSeidel': {'options': dict(SE, atol=NONNEG, rtol=NONNEG, maxiter=POS, mode=MODE,
                                              single_voi_relevance_reduction=('bool', [True, False], ['x', None, 2]))},
        'ScipyGMRES': {'options': dict(SE, atol=NONNEG, maxiter=NAT, mode=MODE, restart=NAT)},
        'DirectSolver': {'options': dict(S, mode=MODE, jacobian_method=enum('MVP', 'assemble'), solve_method=enum('LU', 'solve'))},
        'ScipyOptimizer': {'options': {'optimizer': enum('Nelder-Mead', 'Powell', 'CG', 'BFGS', 'Newton-CG', 'L-BFGS-B', 'TNC', 'COBYLA', 'SLSQP'),
                                       'tol': NONNEG, 'maxiter': NAT, 'disp': BOOL}},
        'CaseDriver': {'options': {'auto_add_response': BOOL}},
        'FullFactorialDriver': {'options': {'auto_add_response': BOOL}},
        'UniformDriver': {'options': {'auto_add_response': BOOL}},
        'LatinHypercubeDriver': {'options': {'auto_add_response': BOOL}},
        'OptimizedLatinHypercubeDriver': {'options': {'auto_add_response': BOOL}},
        'InMemoryRecorder': {'options': REC},
        'DumpRecorder': {'options': REC},
        'CsvRecorder': {'options': REC},
        'Group': D, 'Component': D, 'ParallelGroup': D, 'ConstraintComp': D, 'LinearSystem': D, 'MetaModel': D, 'MultiFiMetaModel': D,
        'ExecComp': D, 'IndepVarComp': D,
        'ExternalCode': {'options': {'command': LIST, 'env_vars': DICT, 'poll_delay': NONNEG, 'timeout': NONNEG, 'external_input_files': LIST,
                                     'external_output_files': LIST, 'fail_hard': BOOL}, 'deriv_options': DERIV},
    }
    return T


def factory(name):
    import openmdao.api as api
    if name == 'InMemoryRecorder':
        from openmdao.recorders.inmem_recorder import InMemoryRecorder as C
    elif name == 'OptimizedLatinHypercubeDriver':
        from openmdao.drivers.latinhypercube_driver import OptimizedLatinHypercubeDriver as C
    elif name == 'BackTracking':
        from openmdao.solvers.backtracking import BackTracking as C
    elif name == 'CsvRecorder':
        from openmdao.recorders.csv_recorder import CsvRecorder as C
    else:
        C = getattr(api, name)
    args = {'ConstraintComp': ('x > y',), 'LinearSystem': (3,), 'ExecComp': ('y=2*x',), 'IndepVarComp': ('x', 1.),
            'DumpRecorder': (io.StringIO(),), 'CsvRecorder': (io.StringIO(),)}.get(name, ())
    return C(*args)


def values(o):
    return dict((k, copy.deepcopy(v)) for k, v in o.items())


def differs(a, b):
    return sorted(k for k in set(a) | set(b) if k not in a or k not in b or not same(a[k], b[k]))


def run_cls(case, R):
    name = case[1]
    for attr, table in TABLE()[name].items():
        a, b = factory(name), factory(name)
        oa, ob = getattr(a, attr), getattr(b, attr)
        R.check(sorted(k for k, _ in oa.items()) == sorted(table), 'declared', [name, attr, sorted(k for k, _ in oa.items())])
        for k, v in oa.items():
            if isinstance(v, (list, dict)):
                R.check(v is not ob[k], 'default-shared-between-instances', [name, k])
        if attr == 'deriv_options':
            R.check(values(oa) == DEFAULTS, 'default', [name, values(oa)])
        for opt in sorted(table):
            kind, good, bad = table[opt]
            for prior in [None] + good:
                for v, ok in [(v, True) for v in good] + [(v, False) for v in bad]:
                    a = factory(name)
                    oa = getattr(a, attr)
                    mine, other = values(oa), values(ob)
                    if prior is not None:
                        oa[opt] = copy.deepcopy(prior)
                        mine = values(oa)
                    try:
                        oa[opt] = copy.deepcopy(v)
                        done = True
                    except Exception:
                        done = False
                    R.step()
                    R.check(done == ok, 'class-option-%s' % ('accepted' if done else 'refused'), [name, opt, v, kind])
                    expect = dict(mine)
                    if ok:
                        expect[opt] = v
                    now = values(oa)
                    diff = differs(now, expect)
                    # the step follows the kind of approximation until it has been chosen
                    follow = {'type': 'step_size', 'check_type': 'check_step_size'}.get(opt)
                    if attr == 'deriv_options' and follow in diff:
                        R.check(now[follow] in (1e-6, 1e-30), 'step-size-default', [name, opt, v, now[follow]])
                        diff.remove(follow)
                    R.check(not diff, 'other-option-changed', [name, opt, v, diff])
                    R.check(not differs(values(ob), other), 'other-instance-changed', [name, opt, v])
                    R.state([name, attr, opt, prior, v])
        if attr == 'deriv_options':
            steps(name, R)
    R.trace()


def steps(name, R):
    """the default step follows type / check_type, a chosen one stays; whatever the order"""
    for hist in product([('type', 'fd'), ('type', 'cs'), ('type', 'user'), ('check_type', 'fd'), ('check_type', 'cs'),
                         ('step_size', 1e-3), ('check_step_size', 1e-4), ('step_size', -1.)], repeat=3):
        o = factory(name).deriv_options
        ref = dict(DEFAULTS)
        chosen = set()
        for k, v in hist:
            try:
                o[k] = v
            except ValueError:
                R.check(v == -1., 'class-option-refused', [name, hist])
                continue
            R.check(v != -1., 'class-option-accepted', [name, hist])
            ref[k] = v
            if k.endswith('step_size'):
                chosen.add(k)
            s = {'type': 'step_size', 'check_type': 'check_step_size'}.get(k)
            if s and s not in chosen and v != 'user':
                ref[s] = 1e-6 if v == 'fd' else 1e-30
            R.step()
        R.check(values(o) == ref, 'step-size-default', [name, hist, values(o)])
        R.state([name, hist])


# ------------------------------------------------------------------ deprecated names of the package
ALIASES = ['brent', 'deriv', 'fd_options']


def run_old(case, R):
    from openmdao.api import Brent, ExecComp, OptionsDictionary
    kind = case[1]
    if kind == 'brent':
        for v in (3, 50, 1., 'x'):
            o = Brent().options
            o2 = Brent().options
            mine = values(o)
            try:
                o['max_iter'] = v
                done = True
                mine['maxiter'] = v
            except ValueError:
                done = False
            R.check(done == (type(v) is int), 'alias-set', [kind, v])
            R.check(not differs(values(o), mine) and not differs(values(o2), values(Brent().options)), 'alias-other', [kind, v])
            for read in (lambda: o['max_iter'], lambda: o.get('max_iter'), lambda: o.get('max_iter', 9)):
                try:
                    R.check(read() == mine['maxiter'], 'alias-read', [kind, v])
                except Exception as e:
                    R.fail('alias-read', [kind, v, repr(e)])
            R.check('max_iter' in o, 'alias-contains', kind)
            R.state([kind, v])
    elif kind == 'deriv':
        for alias, real, vals in (('force_fd', 'type', ['fd', 'cs', 'user', True, 'none']), ('step_type', 'step_calc', ['relative', 'absolute', 'x'])):
            for h in product(vals, repeat=2):
                o, p = ExecComp('y=x').deriv_options, ExecComp('y=x').deriv_options
                for v in h:
                    res = []
                    for d, n in ((o, alias), (p, real)):
                        try:
                            d[n] = v
                            res.append(True)
                        except ValueError:
                            res.append(False)
                    R.check(res[0] == res[1], 'alias-set', [alias, h])
                R.check(not differs(values(o), values(p)), 'alias-set', [alias, h, differs(values(o), values(p))])
                for read in (lambda: o[alias], lambda: o.get(alias), lambda: o.get(alias, 9)):
                    try:
                        R.check(read() == p[real], 'alias-read', [alias, h])
                    except Exception as e:
                        R.fail('alias-read', [alias, h, repr(e)])
                R.state([alias, h])
                R.step(2)
    else:
        ops = [('force_fd', True), ('force_fd', False), ('step_type', 'relative'), ('step_type', 'absolute'), ('step_type', 'x'),
               ('form', 'complex_step'), ('form', 'central'), ('form', 'x'), ('extra_check_partials_form', 'central'),
               ('extra_check_partials_form', 'x'), ('step_size', 1e-3), ('step_size', 1), ('nope', 1)]
        for h in product(ops, repeat=3):
            c = ExecComp('y=x')
            p = ExecComp('y=x').deriv_options
            for k, v in h:
                try:
                    c.fd_options[k] = v
                    done = True
                except (ValueError, KeyError):
                    done = False
                real = {'force_fd': ('type', 'fd' if v else 'user'), 'step_type': ('step_calc', v), 'form': ('form', v),
                        'extra_check_partials_form': ('check_form', v)}.get(k, (k, v))
                if (k, v) == ('form', 'complex_step'):
                    real = ('type', 'cs')
                try:
                    p[real[0]] = real[1]
                    want = True
                except (ValueError, KeyError):
                    want = False
                R.check(done == want, 'fd_options-set', [h, k, v])
            R.check(not differs(values(c.deriv_options), values(p)), 'fd_options-set', [h, differs(values(c.deriv_options), values(p))])
            for k, want in (('force_fd', p['type'] in ('fd', 'cs')), ('step_type', p['step_calc']), ('form', p['form']),
                            ('step_size', p['step_size']), ('extra_check_partials_form', p['check_form'])):
                try:
                    R.check(c.fd_options[k] == want, 'fd_options-read', [h, k, c.fd_options[k]])
                except Exception as e:
                    R.fail('fd_options-read', [h, k, repr(e)])
            try:
                c.fd_options['nope']
                R.fail('fd_options-read', 'nope')
            except KeyError:
                pass
            R.state(h)
            R.step(3)
    R.trace()


# ------------------------------------------------------------------ the lock
MODELS = ['gs', 'gmres', 'direct', 'nested', 'newton', 'driver']
LOCKED = {'LinearGaussSeidel': ['mode', 'single_voi_relevance_reduction'], 'DirectSolver': ['mode'], 'ScipyGMRES': ['restart'], 'deriv': ['type', 'check_type']}


def problem(kind):
    from openmdao.api import (Problem, Group, IndepVarComp, ExecComp, LinearGaussSeidel, ScipyGMRES, DirectSolver, Newton, NLGaussSeidel,
                              ScipyOptimizer, InMemoryRecorder)
    p = Problem(root=Group())
    r = p.root
    r.add('i', IndepVarComp('x', 2.), promotes=['x'])
    if kind == 'nested':
        g = r.add('g', Group(), promotes=['*'])
        h = g.add('h', Group(), promotes=['*'])
        h.add('c', ExecComp('y=3.*x'), promotes=['*'])
        h.ln_solver = DirectSolver()
        g.ln_solver = ScipyGMRES()
        h.add('d', ExecComp('z=y+x'), promotes=['*'])
        r.ln_solver = LinearGaussSeidel()
        r.deriv_options['form'] = 'central'
    else:
        r.add('c', ExecComp('y=3.*x'), promotes=['*'])
        r.add('d', ExecComp('z=y+x'), promotes=['*'])
        r.ln_solver = {'gmres': ScipyGMRES, 'direct': DirectSolver, 'newton': DirectSolver}.get(kind, LinearGaussSeidel)()
    if kind == 'newton':
        r.nl_solver = Newton()
    if kind == 'driver':
        p.driver = ScipyOptimizer()
        p.driver.options['disp'] = False
        p.driver.options['maxiter'] = 2
        p.driver.add_desvar('x', lower=-1., upper=1.)
        p.driver.add_objective('z')
        rec = InMemoryRecorder()
        rec.startup = lambda *a, **k: type(rec).startup(rec, *a, **k)
        p.driver.add_recorder(rec)
    return p


def dicts(p):
    out = []
    for s in p.root.subsystems(recurse=True, include_self=True):
        out.append((s.pathname + ':deriv', s.deriv_options, DERIV, LOCKED['deriv']))
        for a in ('ln_solver', 'nl_solver'):
            v = getattr(s, a, None)
            n = type(v).__name__
            if n in TABLE():
                out.append(('%s:%s' % (s.pathname, n), v.options, TABLE()[n]['options'], LOCKED.get(n, [])))
    n = type(p.driver).__name__
    if n in TABLE():
        out.append((n, p.driver.options, TABLE()[n]['options'], []))
    return out


def run_lock(case, R):
    from openmdao.api import Newton, Group, Problem
    _, kind, how = case
    p = problem(kind)
    before = [values(o) for _, o, _, _ in dicts(p)]
    p.setup(check=False)
    if how == 'again':
        p.run()
        p.setup(check=False)
    q = None
    if how == 'both':
        q = problem('gs')
        q.setup(check=False)
    elif how == 'other':
        q = Newton()
    p_ok = True
    try:
        p.run()
    except RuntimeError as e:
        p_ok = False
        R.fail('lock:run-refused-after-%s' % how, [kind, str(e)[:80]])
    # setting up and running does not change options
    R.check([values(o) for _, o, _, _ in dicts(p)] == before, 'changed-by-setup-or-run', [kind, how])
    pre = 'lock:%s' % ('' if how != 'other' else 'new-objects:')
    for name, o, table, locked in dicts(p):
        for opt in sorted(table):
            _, good, bad = table[opt]
            for v in good + bad:
                old = values(o)
                try:
                    o[opt] = copy.deepcopy(v)
                    done = True
                except Exception:
                    done = False
                R.step()
                if opt in locked:
                    R.check(not done, pre + 'changed-after-setup', [kind, name, opt, v])
                    if not done:
                        R.check(not differs(values(o), old), pre + 'value', [kind, name, opt, v])
                else:
                    R.check(done == (v in good and type(v) in [type(g) for g in good]), pre + 'unlocked-option', [kind, name, opt, v])
                # put it back
                for k in differs(values(o), old):
                    try:
                        o[k] = old[k]
                    except Exception:
                        pass
                R.state([kind, how, name, opt, v])
    R.trace()


# ------------------------------------------------------------------ an option's meaning depends on its value, not on the object
ENUMS = ['type', 'form', 'step_calc', 'mode', 'jacobian_method', 'solve_method', 'optimizer']


def run_equal(case, R):
    """an equal string that is not the same object has the same effect"""
    from openmdao.api import Problem, Group, IndepVarComp, ExecComp, LinearGaussSeidel, DirectSolver, ScipyGMRES, ScipyOptimizer
    name = case[1]
    vals = {'type': ['user', 'fd'], 'form': ['forward', 'backward', 'central'], 'step_calc': ['absolute', 'relative'], 'mode': ['fwd', 'rev', 'auto'],
            'jacobian_method': ['MVP', 'assemble'], 'solve_method': ['LU', 'solve'], 'optimizer': ['SLSQP', 'COBYLA']}[name]
    for v, where, ln in product(vals, ('comp', 'group', 'root'), (LinearGaussSeidel, DirectSolver, ScipyGMRES)):
        if name in ('jacobian_method', 'solve_method') and ln is not DirectSolver:
            continue
        got = []
        for text in (v, ''.join(list(v))):
            p = Problem(root=Group())
            r = p.root
            r.add('i', IndepVarComp('x', 2.), promotes=['x'])
            g = r.add('g', Group(), promotes=['*'])
            c = g.add('c', ExecComp('y=x**3'), promotes=['*'])
            g.add('d', ExecComp('z=y+x'), promotes=['*'])
            r.ln_solver = ln()
            s = {'comp': c, 'group': g, 'root': r}[where]
            if name in ('form', 'step_calc'):
                s.deriv_options['type'] = 'fd'
                s.deriv_options['step_size'] = 1e-2
            if name in ('type', 'form', 'step_calc'):
                s.deriv_options[name] = text
            elif name == 'optimizer':
                p.driver = ScipyOptimizer()
                p.driver.options['disp'] = False
                p.driver.options['optimizer'] = text
                p.driver.add_desvar('x', lower=-1., upper=3.)
                p.driver.add_objective('z')
            else:
                r.ln_solver.options[name] = text
            p.setup(check=False)
            p.run()
            try:
                J = [p.calc_gradient(['x'], ['z'], mode=m, return_format='array').tolist() for m in ('auto', 'fwd', 'rev')]
            except Exception as e:
                J = repr(e)
            got.append([float(p['z']), J])
        R.check(got[0] == got[1], 'equal-string', [name, v, where, ln.__name__, got])
        R.state([name, v, where, ln.__name__])
    R.trace()
