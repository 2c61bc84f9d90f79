"""C11: files written by SqliteRecorder and HDF5Recorder read back exactly what was recorded."""
from itertools import product
import copy
import io
import os
import shutil
import sys
import tempfile
import warnings
import numpy as np
from mc.checks import c10

PID = 'C11'
LEVEL = 'model_checking'
RULE = ('all values of a list of kinds (shapes 0..3 dimensions, empty, nan, infinities, signed zero, integers, booleans, complex, '
        'and objects passed by reference) alone and in pairs of successive values, with all variable name forms; all sequences of '
        'run / failing run / dict gradient / array gradient / second setup to the depth of the tier; all subsets of the record '
        'options; all counts of cases to 25; group nestings x solvers x drivers with recorders on every owner; all short file '
        'contents for the format detection.  Everything recorded is kept by a spy recorder and compared with both readers, by '
        'position from both ends and by identifier.')
ASSUMPTIONS = ['HDF5Recorder refuses values that are not numeric (documented in it); those are compared for Sqlite only',
               'scalars come back from HDF5 as numpy scalars; tuples in metadata as arrays']
NOTE = 'all cases in the bounds are run'


def fl(*a):
    return np.array(a, float)


VALUES = {
    'f': 1.5, 'fz': 0., 'fn': -0., 'nan': float('nan'), 'inf': float('-inf'), 'den': 5e-324, 'big': 1.7976931348623157e308, 'third': 1. / 3.,
    'a0': np.zeros(0), 'a1': fl(2.), 'a3': fl(1., float('nan'), -0.), 'a22': fl(1., 2., 3., float('inf')).reshape(2, 2), 'a11': np.ones((1, 1)),
    'a02': np.zeros((0, 2)), 'a31': fl(1., 2., 3.).reshape(3, 1), 'a122': np.arange(4.).reshape(1, 2, 2), 'a2111': np.arange(2.).reshape(2, 1, 1, 1),
    'i': 3, 'ineg': -7, 'bool': True, 'npi': np.arange(3), 'npb': np.array([True, False]), 'npf32': np.array([.1, .2], np.float32), 'npc': np.array([1 + 2j]),
    'c': 1 - 2j, 'npi8': np.array([[1], [2]], np.int8), 'bigint': 2 ** 40,
    's': 'text', 's0': '', 'su': u'\u00e5\u4e2d', 'nul': 'a\0b', 'list': [1, 'b', None], 'list0': [], 'dict': {'k': [1, 2.]}, 'none': None, 'tup': (1, 2),
    'nps': np.array(['ab', 'c']), 'npo': np.array([None, 1], object),
}
NUMERIC = ['f', 'fz', 'fn', 'nan', 'inf', 'den', 'big', 'third', 'a0', 'a1', 'a3', 'a22', 'a11', 'a02', 'a31', 'a122', 'a2111', 'i', 'ineg', 'bool',
           'npi', 'npb', 'npf32', 'npc', 'c', 'npi8', 'bigint']
FLOATS = NUMERIC[:17]
NAMES = ['x', 'a:b', '_u', 'X1', 'timestamp', 'Derivs', 'metadata', 'Parameters', 'a:b:c', 'x_1', 'success', 'rank0']
OPS = 'rfdas'


def cases(tier):
    q = tier == 'quick'
    out = []
    for k in VALUES:
        if k == 'none':
            continue    # not a value IndepVarComp takes
        for name in NAMES if not q else [NAMES[(len(out) * 5 + i) % len(NAMES)] for i in range(2)]:
            for where in ('root', 'group', 'prom'):
                out.append(['V', [k], name, where])
    for a, b in product(FLOATS, repeat=2):
        if a != b and np.shape(VALUES[a]) == np.shape(VALUES[b]):
            out.append(['V', [a, b, a], 'x', 'root'])
    for a, b in product([k for k in VALUES if k not in FLOATS + ['none']], repeat=2):
        if a != b and not isinstance(VALUES[a], np.ndarray) and not isinstance(VALUES[b], np.ndarray):
            out.append(['V', [a, b], 'x', 'root'])
    for n in NAMES:
        for m in NAMES:
            if n != m:
                out.append(['W', n, m])
    for L in range(5 if q else 6):
        for ops in product(OPS, repeat=L):
            if L == (4 if q else 5) and not ('r' in ops or 'f' in ops):
                continue
            for share in (0, 1):
                if q and L == 4 and (share or ops[0] not in 'rs' or not ('d' in ops or 'a' in ops)):
                    continue
                out.append(['S', ''.join(ops), share])
    for opts in range(32):
        for k in ('p', 'n'):
            out.append(['O', opts, k])
    for n in range(26 if q else 121):
        for drv in ('once', 'doe'):
            out.append(['C', n, drv])
    for tree, gs in c10.TREES.items():
        if len(gs) > (3 if not q else 2) and tree != '2':
            continue
        for sol in product(c10.SOLV if len(gs) < 3 else ['run', 'gs', 'newton'], repeat=len(gs)):
            for drv in c10.DRV:
                for ops in ('r', 'rr', 'rgor'):
                    if q and len(gs) > 2 and ops != 'rr':
                        continue
                    out.append(['N', tree, list(sol), drv, ops])
    for meta in METAS:
        for where in ('out', 'par'):
            out.append(['M', meta, where])
    for opts in range(8):
        for inc in range(len(INCL)):
            for where in ('driver', 'nl', 'both'):
                out.append(['I', opts, inc, where])
    bits = [b'', b'SQLite format 3\0', b'\x89HDF\r\n\x1a\n', b'garbage', b'\0' * 100]
    for a in bits:
        for b in bits:
            out.append(['F', (a + b).hex()])
    for args in ({}, {'autocommit': True}, {'autocommit': True, 'journal_mode': 'MEMORY'}):
        for n in (0, 1, 3):
            out.append(['A', args, n])
    return out


INCL = [(['*'], []), (['*'], ['*.z']), (['*.z'], []), (['g.s.*', 'p.x'], []), (['*y', '*z'], ['c*']), (['nothing'], []), (['*'], ['*'])]


METAS = {
    'plain': dict(), 'units': dict(units='m'), 'desc': dict(desc='a text'), 'desc0': dict(desc=''), 'shape': dict(shape=(2, 3)), 'shape1': dict(shape=4),
    'bounds': dict(lower=-1., upper=fl(3.)), 'extra-str': dict(tag='t'), 'extra-none': dict(tag=None), 'extra-list': dict(tag=[1, 2]),
    'extra-ragged': dict(tag=[[1], [2, 3]]), 'extra-dict': dict(tag={'a': 1}), 'extra-tuple': dict(tag=('a', 1)), 'extra-bool': dict(tag=True),
    'extra-array': dict(tag=np.eye(2)), 'extra-slots': dict(tag={'a', 'b'}), 'pbo-dict': dict(val={'k': 1}), 'pbo-str': dict(val='s'), 'pbo-list': dict(val=[1, 'a']),
    'pbo-none': dict(val=None, pass_by_obj=True), 'pbo-obj': dict(val=np.array([None, 2], object), pass_by_obj=True), 'pbo-empty': dict(val=[]),
    'array-val': dict(val=np.arange(6.).reshape(2, 3)), 'step': dict(step_size=1e-3, form='central'),
}


def run(case, R):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        old = sys.stdout
        sys.stdout = io.StringIO()
        tmp = tempfile.mkdtemp()
        try:
            globals()['run_' + case[0].lower()](case, R, tmp)
        finally:
            sys.stdout = old
            shutil.rmtree(tmp)
    R.state(case)
    R.trace()


def exact(a, b, loose):
    """a: recorded, b: read; loose: HDF5 turns scalars into numpy scalars"""
    if isinstance(a, (np.ndarray, np.generic)) and not (np.ndim(a) == 0 and loose):
        if not isinstance(b, type(a)) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind in 'fc':
            return a.tobytes() == b.tobytes()
        return bool(np.all(a == b)) if a.dtype != object else list(a.flat) == list(b.flat)
    if isinstance(a, (bool, int, float, complex, np.generic)) and loose:
        if np.ndim(b) != 0 or isinstance(a, bool) != (np.asarray(b).dtype == bool):
            return False
        return np.asarray(a).tobytes() == np.asarray(b, np.asarray(a).dtype).tobytes() and np.asarray(a).dtype == np.asarray(b).dtype
    if type(a) != type(b):
        return False
    if isinstance(a, float):
        return np.float64(a).tobytes() == np.float64(b).tobytes()
    if isinstance(a, dict):
        return list(a) == list(b) and all(exact(a[k], b[k], loose) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(exact(x, y, loose) for x, y in zip(a, b))
    return a == b


def derivs_same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(derivs_same(a[k], b[k]) for k in a)
    return isinstance(b, np.ndarray) and exact(np.asarray(a), b, False)


def spy(opts=None):
    Spy = c10.spy_class()

    class Both(Spy):
        """one stream of everything, with the time stamps"""
        def record_iteration(self, params, unknowns, resids, metadata):
            super(Both, self).record_iteration(params, unknowns, resids, metadata)
            self.got[-1]['time'] = metadata['timestamp']
    return Both()


class Pair(object):
    """the two recorders of one history, and the spy"""
    def __init__(self, tmp, h5=True, **kw):
        from openmdao.recorders.sqlite_recorder import SqliteRecorder
        from openmdao.recorders.hdf5_recorder import HDF5Recorder
        self.files = {'sqlite': os.path.join(tmp, 'a.db')}
        self.recs = {'sqlite': SqliteRecorder(self.files['sqlite'], **kw)}
        if h5:
            self.files['hdf5'] = os.path.join(tmp, 'b.h5')
            self.recs['hdf5'] = HDF5Recorder(self.files['hdf5'])
        self.spy = spy()
        self.opts = dict(record_params=True, record_resids=True, record_unknowns=True, record_derivs=True)

    def options(self, **kw):
        self.opts.update((k, v) for k, v in kw.items())
        for r in self.recs.values():
            for k, v in self.opts.items():
                r.options[k] = v

    def attach(self, owner):
        self.options()
        for r in self.recs.values():
            owner.add_recorder(r)
        owner.add_recorder(self.spy)

    def close(self):
        for r in self.recs.values():
            r.close()

    def check(self, R):
        from openmdao.recorders.case_reader import CaseReader
        got = self.spy.got
        ids = [c10.fmt(c['coord']) for c in got]
        last = {}
        for J, coord in self.spy.derivs:
            last[c10.fmt(coord)] = J      # as many as are taken at one iteration: the last
        for kind, fn in self.files.items():
            cr = CaseReader(fn)
            loose = kind == 'hdf5'
            R.check(type(cr).__name__.lower().startswith(kind), 'wrong-reader', type(cr).__name__)
            R.check(cr.num_cases == len(got), kind + '-num-cases', lambda: '%s of %s' % (cr.num_cases, len(got)))
            R.check(list(cr.list_cases()) == ids, kind + '-order', lambda: '%s instead of %s' % (list(cr.list_cases()), ids))
            n = len(got)
            for i, c in enumerate(got):
                for key in ([i, i - n, ids[i]] if i in (0, n - 1) else [(i, i - n, ids[i])[i % 3]]):
                    try:
                        case = cr.get_case(key)
                    except (KeyError, IndexError) as err:
                        R.fail(kind + '-missing', '%r: %r' % (key, err))
                        continue
                    R.step()
                    R.check(case.case_id == ids[i], kind + '-identifier', lambda: '%r: %s' % (key, case.case_id))
                    R.check(case.timestamp == c['time'], kind + '-timestamp', lambda: '%r %r' % (case.timestamp, c['time']))
                    R.check(case.success == c['success'], kind + '-success', lambda: '%r %r' % (case.success, c['success']))
                    R.check(case.msg == c['msg'], kind + '-message', lambda: '%r %r' % (case.msg, c['msg']))
                    for attr, k, o in (('parameters', 'p', 'record_params'), ('unknowns', 'u', 'record_unknowns'), ('resids', 'r', 'record_resids')):
                        have = getattr(case, attr)
                        if not self.opts[o]:
                            R.check(have is None, kind + '-not-asked-for', attr)
                            continue
                        want = c[k]
                        R.check(have is not None and set(have) == set(want), kind + '-names', lambda: '%s: %s instead of %s' % (attr, sorted(have or ()), sorted(want)))
                        for name in want:
                            if have is not None and name in have:
                                R.check(exact(want[name], have[name], loose), kind + '-values',
                                        lambda: '%s %s: %r instead of %r' % (attr, name, have[name], want[name]))
                                if attr == 'unknowns':
                                    R.check(exact(want[name], case[name], loose), kind + '-getitem', name)
                    if ids[i] in last and self.opts['record_derivs']:
                        R.check(case.derivs is not None and derivs_same(last[ids[i]], case.derivs), kind + '-derivs',
                                lambda: '%r instead of %r' % (case.derivs, last[ids[i]]))
                    else:
                        R.check(case.derivs is None, kind + '-derivs', lambda: '%r' % case.derivs)
            for bad in (n, -n - 1):
                try:
                    cr.get_case(bad)
                    R.fail(kind + '-out-of-range', str(bad))
                except IndexError:
                    pass
            try:
                cr.get_case('rank0:Nothing|7')
                R.fail(kind + '-unknown-identifier', '')
            except KeyError:
                pass


def fresh(v):
    return copy.deepcopy(v)


def holder(vals, where, name):
    from openmdao.api import Problem, Group, Component, IndepVarComp
    prob = Problem(root=Group())

    class C(Component):
        def __init__(self):
            super(C, self).__init__()
            self.add_param('inp', fresh(vals[0]), **pbo(vals[0]))
            self.add_output('y', 0.)

        def solve_nonlinear(self, p, u, r):
            u['y'] += 1.
    ind = IndepVarComp(name, fresh(vals[0]), **pbo(vals[0]))
    if where == 'root':
        prob.root.add('q', ind, promotes=['*'])
        top = name
    else:
        g = prob.root.add('g', Group(), promotes=['*'] if where == 'prom' else None)
        g.add('q', ind, promotes=['*'] if where == 'prom' else None)
        top = name if where == 'prom' else 'g.q.' + name
    prob.root.add('c', C())
    prob.root.connect(top, 'c.inp')
    return prob, top


def pbo(v):
    if isinstance(v, float) or isinstance(v, np.ndarray) and v.dtype == float:
        return {}
    return {'pass_by_obj': True}


def run_v(case, R, tmp):
    _, kinds, name, where = case
    vals = [VALUES[k] for k in kinds]
    prob, top = holder(vals, where, name)
    num = all(k in NUMERIC for k in kinds)
    pair = Pair(tmp, h5=num)
    # metadata of values that are not numeric are a matter of their own
    pair.attach(prob.driver)
    prob.setup(check=False)
    for v in vals:
        prob[top] = fresh(v)
        prob.run()
        R.step()
    pair.close()
    pair.check(R)
    if not num:
        refuse(case, R, tmp, vals, name, where)


def refuse(case, R, tmp, vals, name, where):
    """values HDF5Recorder cannot write are refused, not altered"""
    from openmdao.recorders.hdf5_recorder import HDF5Recorder
    from openmdao.recorders.case_reader import CaseReader
    prob, top = holder(vals, where, name)
    fn = os.path.join(tmp, 'c.h5')
    rec = HDF5Recorder(fn)
    prob.driver.add_recorder(rec)
    try:
        prob.setup(check=False)
        prob.run()
    except (NotImplementedError, TypeError, ValueError):
        R.note('refused')
        return
    finally:
        rec.close()
    c = CaseReader(fn).get_case(0)
    R.check(exact(vals[0], c.unknowns[top], True), 'hdf5-altered', '%r' % (c.unknowns[top],))


def run_w(case, R, tmp):
    """pairs of names next to each other, in groups of the same names"""
    from openmdao.api import Problem, Group, IndepVarComp
    _, a, b = case
    prob = Problem(root=Group())
    ok = lambda s: ':' not in s
    prob.root.add('q', IndepVarComp([(a, 1.), (b, 2.)]), promotes=['*'])
    if ok(a):
        g = prob.root.add('G' + a, Group())
        g.add(b if ok(b) and b != 'metadata' else 'z', IndepVarComp([(b, 3.), (a, np.arange(2.))]))
    pair = Pair(tmp)
    pair.attach(prob.driver)
    prob.setup(check=False)
    prob.run()
    prob[a] = 5.
    prob.run()
    pair.close()
    pair.check(R)
    R.step(2)


def run_s(case, R, tmp):
    """sequences of operations; several of the same gradients at one point, setups in between"""
    from openmdao.api import AnalysisError
    _, ops, share = case
    log, clock = [], c10.Clock()
    fails = c10.Fails([])
    prob, groups = c10.build('1', ['run', 'gs'], log, clock, fails, lists=False)
    d = c10.driver(prob, 'once', None)
    pair = Pair(tmp)
    pair.attach(d)
    if share:
        pair.attach(groups['g'].nl_solver)
        pair.attach(prob.root.nl_solver)
    prob.setup(check=False)
    x = 2.
    ran = False
    for op in ops:
        if op == 'r':
            prob['x'] = x = x * .7
            prob.run()
            ran = True
        elif op == 'f':
            fails.xs = [5.]
            prob['x'] = 5.
            try:
                prob.run()
            except AnalysisError:
                pass
            fails.xs = []
        elif op in 'da':
            if ran:
                d.calc_gradient(['x'], ['a', 'b'], return_format='dict' if op == 'd' else 'array')
        elif op == 's':
            prob.setup(check=False)
            n = len(pair.spy.got)
            if 'r' in ops or 'f' in ops:
                ran = False
        R.step()
    pair.close()
    pair.check(R)


def run_o(case, R, tmp):
    _, opts, k = case
    log, clock = [], c10.Clock()
    prob, groups = build(k)
    d = c10.driver(prob, 'once', None)
    pair = Pair(tmp)
    pair.options(record_params=bool(opts & 1), record_unknowns=bool(opts & 2), record_resids=bool(opts & 4), record_derivs=bool(opts & 8),
                 record_metadata=bool(opts & 16))
    pair.attach(d)
    if k == 'n':
        pair.attach(groups['g'].nl_solver)
    prob.setup(check=False)
    prob.run()
    d.calc_gradient(['x'], ['a'], return_format='dict')
    prob.run()
    d.calc_gradient(['x'], ['a'], return_format='array')
    pair.close()
    pair.check(R)
    from openmdao.recorders.case_reader import CaseReader
    for kind, fn in pair.files.items():
        cr = CaseReader(fn)
        R.check((cr.parameters is not None) == bool(opts & 16), kind + '-metadata', 'parameters %r' % (cr.parameters,))
        R.check((cr.unknowns is not None) == bool(opts & 16), kind + '-metadata', 'unknowns %r' % (cr.unknowns,))


def build(k):
    log, clock = [], c10.Clock()
    prob, groups = c10.build('1', ['run', 'gs' if k == 'p' else 'newton'], log, clock, lists=False)
    return prob, groups


def run_c(case, R, tmp):
    _, n, drv = case
    from openmdao.api import Problem, Group, IndepVarComp, ExecComp
    from openmdao.drivers.fullfactorial_driver import FullFactorialDriver
    prob = Problem(root=Group())
    prob.root.add('p', IndepVarComp('x', 1.), promotes=['*'])
    prob.root.add('c', ExecComp('y=2.*x'), promotes=['*'])
    if drv == 'doe':
        prob.driver = FullFactorialDriver(num_levels=max(n, 1))
    prob.driver.add_desvar('x', lower=0., upper=10.)
    pair = Pair(tmp)
    pair.attach(prob.driver)
    prob.setup(check=False)
    if drv == 'doe':
        prob.run()
    else:
        for i in range(n):
            prob['x'] = float(i)
            prob.run()
    R.step(n)
    R.check(len(pair.spy.got) == (n if drv != 'doe' else max(n, 1)), 'harness', '')
    pair.close()
    pair.check(R)


def run_n(case, R, tmp):
    _, tree, sols, drv, ops = case
    log, clock = [], c10.Clock()
    prob, groups = c10.build(tree, sols, log, clock, c10.Fails([1.]) if drv == 'doefail' else None, lists=False)
    d = c10.driver(prob, drv, None)
    pair = Pair(tmp)
    pair.attach(d)
    for g in groups.values():
        pair.attach(g.nl_solver)
    prob.setup(check=False)
    for op in ops:
        if op == 'r':
            prob.run()
        elif op == 'o':
            prob.run_once()
        elif drv not in ('SLSQP', 'COBYLA') and getattr(d, '_problem', None) is not None:
            d.calc_gradient(['x'], ['a'], return_format='dict')
        R.step()
    pair.close()
    pair.check(R)


def run_m(case, R, tmp):
    """metadata of variables"""
    from openmdao.api import Problem, Group, Component
    from openmdao.recorders.case_reader import CaseReader
    _, which, where = case
    meta = copy.deepcopy(METAS[which])
    if where == 'par' and 'lower' in meta:
        return

    class C(Component):
        def __init__(self):
            super(C, self).__init__()
            m = dict(meta)
            args = ['v'] + ([m.pop('val')] if 'val' in m else [] if 'shape' in m else [1.])
            getattr(self, 'add_param' if where == 'par' else 'add_output')(*args, **m)
            self.add_param('z', 0.)
            self.add_output('y', np.zeros(2), units='ft', desc='d')

        def solve_nonlinear(self, p, u, r):
            pass
    prob = Problem(root=Group())
    prob.root.add('c', C())
    pair = Pair(tmp)
    pair.options(includes=['c.y', 'c.z'])
    prob.driver.add_recorder(pair.recs['sqlite'])
    prob.driver.add_recorder(pair.recs['hdf5'])
    prob.setup(check=False)
    prob.run()
    R.step()
    pair.close()
    for kind, fn in pair.files.items():
        cr = CaseReader(fn)
        for attr, vec in (('parameters', prob.root.params), ('unknowns', prob.root.unknowns)):
            have = getattr(cr, attr)
            want = dict((n, vec.metadata(n)) for n in vec)
            R.check(have is not None and set(have) == set(want), kind + '-metadata-names', lambda: '%s %r instead of %s' % (attr, have, sorted(want)))
            for n in want:
                h = (have or {}).get(n, {})
                R.check(set(h) == set(want[n]), kind + '-metadata-keys', lambda: '%s: %s instead of %s' % (n, sorted(h), sorted(want[n])))
                for k in want[n]:
                    if k not in h:
                        continue
                    a, b = want[n][k], h[k]
                    if kind == 'hdf5' and isinstance(a, (list, tuple)) and isinstance(b, np.ndarray):
                        ok = np.array_equal(np.asarray(a), b) if b.dtype.kind not in 'SO' else [str(x) for x in a] == [x.decode() if isinstance(x, bytes) else str(x) for x in b]
                    else:
                        ok = exact(a, b, kind == 'hdf5')
                    R.check(ok, kind + '-metadata-values', lambda: '%s %s: %r instead of %r' % (n, k, b, a))


def run_f(case, R, tmp):
    """what is not a recorded file is refused with IOError"""
    from openmdao.recorders.case_reader import CaseReader
    fn = os.path.join(tmp, 'f')
    with open(fn, 'wb') as f:
        f.write(bytes.fromhex(case[1]))
    before = open(fn, 'rb').read()
    for name in (fn, os.path.join(tmp, 'missing'), tmp):
        try:
            CaseReader(name)
            R.fail('garbage-accepted', case[1])
        except IOError:
            pass
        except Exception as err:
            if not bytes.fromhex(case[1]).startswith(b'SQLite format 3') or name != fn:
                R.fail('garbage-error', '%s: %r' % (name[-8:], err))
        R.step()
    R.check(open(fn, 'rb').read() == before, 'reader-writes', '')


def run_a(case, R, tmp):
    _, args, n = case
    prob, groups = build('p')
    d = c10.driver(prob, 'once', None)
    pair = Pair(tmp, **args)
    pair.attach(d)
    prob.setup(check=False)
    for i in range(n):
        prob['x'] = 1. + i
        prob.run()
        d.calc_gradient(['x'], ['a'], return_format='dict')
        R.step()
    prob.cleanup()
    pair.close()
    pair.check(R)


def run_i(case, R, tmp):
    """which variables are written, with states among them, stated from the options alone"""
    from fnmatch import fnmatchcase
    from openmdao.api import Problem, Group, Component, IndepVarComp, ExecComp, Newton, DirectSolver
    from openmdao.recorders.case_reader import CaseReader
    _, opts, inc, where = case

    class S(Component):
        def __init__(self):
            super(S, self).__init__()
            self.add_param('x', 0.)
            self.add_state('z', np.zeros(2))
            self.add_output('y', 0.)

        def solve_nonlinear(self, p, u, r):
            u['y'] = u['z'][0] * 2.

        def apply_nonlinear(self, p, u, r):
            r['z'] = np.array([4., 2.]) * u['z'] - p['x']
            r['y'] = u['z'][0] * 2. - u['y']

        def linearize(self, p, u, r):
            return {('z', 'z'): np.diag([4., 2.]), ('z', 'x'): -np.ones((2, 1)), ('y', 'z'): np.array([[2., 0.]])}
    prob = Problem(root=Group())
    prob.root.add('p', IndepVarComp('x', 3.))
    g = prob.root.add('g', Group())
    g.add('s', S())
    prob.root.add('c', ExecComp('y=3.*a'))
    prob.root.connect('p.x', 'g.s.x')
    prob.root.connect('g.s.y', 'c.a')
    prob.root.nl_solver = Newton()
    prob.root.ln_solver = DirectSolver()
    prob.root.nl_solver.options['maxiter'] = 1
    pair = Pair(tmp)
    recs = list(pair.recs.values())
    want = {'parameters': opts & 1, 'unknowns': opts & 2, 'resids': opts & 4}
    for r in recs:
        r.options['record_params'], r.options['record_unknowns'], r.options['record_resids'] = (bool(opts & k) for k in (1, 2, 4))
        r.options['includes'], r.options['excludes'] = [list(v) for v in INCL[inc]]
        if where != 'nl':
            prob.driver.add_recorder(r)
        if where != 'driver':
            prob.root.nl_solver.add_recorder(r)
    prob.setup(check=False)
    prob.run()
    vals = {'parameters': dict((n, prob.root.params[n]) for n in prob.root.params), 'unknowns': dict((n, prob[n]) for n in prob.root.unknowns),
            'resids': dict((n, prob.root.resids[n]) for n in prob.root.resids)}
    names = {'parameters': ['g.s.x', 'c.a'], 'unknowns': ['p.x', 'g.s.z', 'g.s.y', 'c.y'], 'resids': ['p.x', 'g.s.z', 'g.s.y', 'c.y']}
    pair.close()
    for kind, fn in pair.files.items():
        cr = CaseReader(fn)
        ids = list(cr.list_cases())
        n = len(ids)
        R.check(n == {'driver': 1, 'both': 2}.get(where, 1) or where != 'driver' and n > 0, kind + '-num-cases', lambda: str(ids))
        for i in range(n):
            c = cr.get_case(i)
            R.step()
            for attr in names:
                have = getattr(c, attr)
                if not want[attr]:
                    R.check(have is None, kind + '-not-asked-for', attr)
                    continue
                exp = [v for v in names[attr] if any(fnmatchcase(v, q) for q in INCL[inc][0]) and not any(fnmatchcase(v, q) for q in INCL[inc][1])]
                R.check(sorted(have or ()) == sorted(exp), kind + '-selected-names', lambda: '%s %s expected %s' % (attr, sorted(have or ()), sorted(exp)))
                if i == n - 1:
                    for v in exp:
                        if have and v in have:
                            R.check(np.array_equal(np.ravel(have[v]), np.ravel(vals[attr][v])), kind + '-values', lambda: '%s %s: %s expected %s' % (attr, v, have[v], vals[attr][v]))
