"""C04: unit conversion is exact, reversible and applied everywhere."""
from fractions import Fraction as Fr
from itertools import product, permutations
from math import pi
import numpy as np
from mc.models import flat, relerr

PID = 'C04'
LEVEL = 'model_checking'
RULE = ('all ordered pairs and same-dimension triples of an independent table of units; every prefix x '
        'unit; all compound expressions of three atoms, two operators and small powers; all ordered pairs '
        'of lookups over an alphabet of prefixed, plain and invalid names starting from a freshly loaded '
        'library (history independence); all malformed strings of a list at every entry point; models over '
        'unit pairs x shapes x connection kinds x partial kinds x modes.')
ASSUMPTIONS = ['definitions of non-SI units as stated in the documentation of the unit library',
               'the physical constants section of the library is not compared with CODATA']
NOTE = 'complete enumeration against an independent table of exact unit definitions'

B = ('m', 'kg', 's', 'A', 'K', 'mol', 'cd', 'rad', 'sr', 'USD', 'pax', 'byte')


def d(**k):
    return tuple(sorted(k.items()))


L, M, T, K = d(m=1), d(kg=1), d(s=1), d(K=1)
FORCE = d(m=1, kg=1, s=-2)
PRES = d(m=-1, kg=1, s=-2)
ENER = d(m=2, kg=1, s=-2)
POW = d(m=2, kg=1, s=-3)
VOL, AREA, VEL = d(m=3), d(m=2), d(m=1, s=-1)
ANG = d(rad=1)
TAB = {
    'm': (L, Fr(1)), 'inch': (L, Fr(254, 10000)), 'ft': (L, Fr(3048, 10000)),
    'mi': (L, Fr(1609344, 1000)), 'NM': (L, Fr(1852)), 'nmi': (L, Fr(1852)), 'Ang': (L, Fr(1, 10 ** 10)),
    'ly': (L, Fr(946073 * 10 ** 10)),
    'kg': (M, Fr(1)), 'g': (M, Fr(1, 1000)), 't': (M, Fr(1000)), 'lb': (M, Fr(45359237, 10 ** 8)),
    'lbm': (M, Fr(45359237, 10 ** 8)), 'oz': (M, Fr(45359237, 16 * 10 ** 8)),
    'ton': (M, Fr(2000 * 45359237, 10 ** 8)), 'slug': (M, Fr(145939029, 10 ** 7)),
    's': (T, Fr(1)), 'min': (T, Fr(60)), 'h': (T, Fr(3600)), 'd': (T, Fr(86400)),
    'wk': (T, Fr(7 * 86400)), 'week': (T, Fr(7 * 86400)), 'yr': (T, Fr(365242199, 10 ** 6) * 86400),
    'year': (T, Fr(365242199, 10 ** 6) * 86400), 'mo': (T, Fr(365242199, 10 ** 6) * 7200),
    'A': (d(A=1), Fr(1)), 'mol': (d(mol=1), Fr(1)), 'cd': (d(cd=1), Fr(1)),
    'USD': (d(USD=1), Fr(1)), 'pax': (d(pax=1), Fr(1)), 'byte': (d(byte=1), Fr(1)),
    'K': (K, Fr(1), Fr(0)), 'degK': (K, Fr(1), Fr(0)), 'degC': (K, Fr(1), Fr(27315, 100)),
    'degR': (K, Fr(5, 9), Fr(0)), 'degF': (K, Fr(5, 9), Fr(45967, 100)),
    'rad': (ANG, Fr(1)), 'deg': (ANG, pi / 180), 'rev': (ANG, 2 * pi), 'arc_minute': (ANG, pi / 10800),
    'arc_second': (ANG, pi / 648000),
    'Hz': (d(s=-1), Fr(1)), 'Bq': (d(s=-1), Fr(1)), 'N': (FORCE, Fr(1)), 'lbf': (FORCE, Fr(444822162, 10 ** 8)),
    'dyn': (FORCE, Fr(1, 10 ** 5)),
    'Pa': (PRES, Fr(1)), 'bar': (PRES, Fr(10 ** 5)), 'atm': (PRES, Fr(101325)),
    'torr': (PRES, Fr(101325, 760)), 'psi': (PRES, Fr(689475729317, 10 ** 8)),
    'psf': (PRES, Fr(689475729317, 144 * 10 ** 8)),
    'J': (ENER, Fr(1)), 'erg': (ENER, Fr(1, 10 ** 7)), 'cal': (ENER, Fr(4184, 1000)),
    'cali': (ENER, Fr(41868, 10000)), 'Btu': (ENER, Fr(105505585262, 10 ** 8)),
    'W': (POW, Fr(1)), 'hp': (POW, Fr(7457, 10)),
    'C': (d(A=1, s=1), Fr(1)), 'V': (d(m=2, kg=1, s=-3, A=-1), Fr(1)),
    'ohm': (d(m=2, kg=1, s=-3, A=-2), Fr(1)), 'S': (d(m=-2, kg=-1, s=3, A=2), Fr(1)),
    'F': (d(m=-2, kg=-1, s=4, A=2), Fr(1)), 'Wb': (d(m=2, kg=1, s=-2, A=-1), Fr(1)),
    'T': (d(kg=1, s=-2, A=-1), Fr(1)), 'gauss': (d(kg=1, s=-2, A=-1), Fr(1, 10 ** 4)),
    'H': (d(m=2, kg=1, s=-2, A=-2), Fr(1)),
    'L': (VOL, Fr(1, 1000)), 'galUS': (VOL, Fr(3785411, 10 ** 9)), 'galUK': (VOL, Fr(454609, 10 ** 8)),
    'ha': (AREA, Fr(10 ** 4)), 'acre': (AREA, Fr(1609344, 1000) ** 2 / 640), 'b': (AREA, Fr(1, 10 ** 28)),
    'kn': (VEL, Fr(1852, 3600)), 'knot': (VEL, Fr(1852, 3600)), 'c0': (VEL, Fr(299792458)),
    'rpm': (d(rad=1, s=-1), 2 * pi / 60), 'rps': (d(rad=1, s=-1), 2 * pi),
    'lm': (d(cd=1, sr=1), Fr(1)), 'lx': (d(cd=1, sr=1, m=-2), Fr(1)), 'kat': (d(mol=1, s=-1), Fr(1)),
    'Gy': (d(m=2, s=-2), Fr(1)), 'Sv': (d(m=2, s=-2), Fr(1)),
    'unitless': (d(), Fr(1)),
}
PRE = {'Y': 24, 'Z': 21, 'E': 18, 'P': 15, 'T': 12, 'G': 9, 'M': 6, 'k': 3, 'h': 2, 'da': 1, 'd': -1,
       'c': -2, 'm': -3, 'u': -6, 'n': -9, 'p': -12, 'f': -15, 'a': -18, 'z': -21, 'y': -24}
IEC = {'Ki': 10, 'Mi': 20, 'Gi': 30, 'Ti': 40, 'Pi': 50, 'Ei': 60}
OTHER = {'kg', 'e', 'u', 'P', 'H', 'a', 'R', 're', 'mp', 'mn', 'me', 'a0', 'Eh', 'ua', 'Da', 'eV', 'hbar',
         'mue', 'mup', 'mub', 'mun', 'pt', 'qt', 'cup', 'tsp', 'tbsp', 'floz', 'St', 'sb', 'ph', 'Mx', 'Oe',
         'sr', 'Nav', 'hme', 'month', 'phi0'}
NAMES = sorted(TAB)
PBASE = ['m', 'g', 's', 'A', 'K', 'mol', 'cd', 'rad', 'byte', 'Hz', 'N', 'Pa', 'J', 'W', 'C', 'V', 'F', 'ohm',
         'L', 't', 'bar', 'cal', 'ft', 'degK', 'USD', 'deg', 'min', 'yr', 'inch', 'lb']
SEQ = ['m', 'am', 'dam', 'mm', 'kam', 'km', 'kkm', 'mkm', 'g', 'ag', 'dag', 'aA', 'daA', 'K', 'mK', 'mmK',
       'uV', 'muV', 'Kibyte', 'kibyte', 'byte', 'kbyte', 'MKibyte', 'aPa', 'daPa', 'zz', 'km/s', 'kkm/s',
       'dam**2', 'ft/am', 'degC', 'mdegC', 'cm*dag', 'ahm', 'dahm', 'pax', 'dapax', 'apax']
ATOMS = ['m', 'ft', 'kg', 's', 'h', 'km', 'N', 'degR', 'cm', 'rad', 'degC']
BAD = ['', ' ', 'xx', 'm//s', 'm/', '*m', 'm s', '1', '3.5', 'm+s', 'm**', 'm***2', 'm**s', '(m', 'm)', 'm**0.5',
       'km/xx', 'm-', 'degC*m', 'm/degF', 'degC**2', 'None', '[1]', 'm**2.5', 'kdegC', 'kk', 'm,s', '1/', 'm^2',
       '__import__', 'open', 'lambda: 1', 'd_m', 'kilom', '2**3', 'cd cd', 'm;s', '"m"']
GOOD = ['1/s', 'm/s/s', 'm*m', 'm**-2', 'm**2/s**2', '(m/s)**2', '1/(m*s)', 'kg*m/s**2', ' m ', 'm / s', 's**-1',
        '60*s', 'm**0', 'm/(s*kg)', '(m)', 'm*s**-3', '1e3*m']
GOODV = [(d(s=-1), 1), (d(m=1, s=-2), 1), (d(m=2), 1), (d(m=-2), 1), (d(m=2, s=-2), 1), (d(m=2, s=-2), 1),
         (d(m=-1, s=-1), 1), (FORCE, 1), (L, 1), (VEL, 1), (d(s=-1), 1), (T, 60), (d(), 1),
         (d(m=1, s=-1, kg=-1), 1), (L, 1), (d(m=1, s=-3), 1), (L, 1000)]
VALS = [0., 1., -3.5, 1234.5]


def ent(n):
    e = TAB[n]
    return e[0], e[1], (e[2] if len(e) > 2 else Fr(0))


def lookup(name):
    """independent reading of a single name -> (dim, factor, offset) or None if invalid"""
    if name in TAB:
        return ent(name)
    for p in sorted(PRE, key=len):
        if name.startswith(p) and name[len(p):] in TAB:
            dim, f, o = ent(name[len(p):])
            if o or name[len(p):] == 'kg':
                return None if o else (dim, f * Fr(10) ** PRE[p], Fr(0))
            return dim, f * Fr(10) ** PRE[p], Fr(0)
    for p in IEC:
        if name.startswith(p) and name[len(p):] in TAB:
            dim, f, o = ent(name[len(p):])
            return None if o else (dim, f * 2 ** IEC[p], Fr(0))
    return None


def dmul(a, b, k=1):
    r = dict(a)
    for n, p in b:
        r[n] = r.get(n, 0) + k * p
    return tuple(sorted((n, p) for n, p in r.items() if p))


def fresh():
    import os
    from openmdao.units import units
    path = os.path.join(os.path.dirname(units.__file__), 'unit_library.ini')
    with open(path) as f:
        units.import_library(f)


def base_name(dim):
    """an expression in base units for a dimension"""
    if not dim:
        return 'unitless'
    num = '*'.join('%s**%d' % (n, p) for n, p in dim if p > 0)
    den = ''.join('/%s**%d' % (n, -p) for n, p in dim if p < 0)
    return (num or '1') + den


def close(a, b, tol=1e-12):
    a, b = float(a), float(b)
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-300


def cases(tier):
    out = [['P', a] for a in NAMES]
    dims = {}
    for n in NAMES:
        dims.setdefault(ent(n)[0], []).append(n)
    for dm, ns in sorted(dims.items()):
        for a in ns:
            out.append(['T', a])
    out += [['X', p] for p in sorted(PRE)] + [['X', p] for p in sorted(IEC)]
    for a in SEQ:
        for b in SEQ:
            out.append(['S', [a, b]])
            if tier == 'thorough':
                for c in SEQ:
                    out.append(['S', [a, b, c]])
    for a in ATOMS:
        for b in ATOMS:
            out.append(['C', a, b])
    for k in range(len(BAD)):
        out.append(['M', k])
    for k in range(len(GOOD)):
        out.append(['G', k])
    for a, b in MODEL_PAIRS:
        for sh in SHAPES:
            for kind in KINDS:
                for dk in ('jac', 'mf', 'fd', 'cs'):
                    if kind in ('user', 'pbo', 'list') and dk != 'jac':
                        continue
                    out.append(['W', a, b, sh, kind, dk])
    return out


MODEL_PAIRS = [(a, b) for ns in (['m', 'ft', 'cm', None], ['degC', 'degF', 'degK', 'degR'], ['s', 'min'],
                                 ['N', 'lbf'], ['km/h', 'ft/s']) for a in ns for b in ns]
SHAPES = [[], [1], [3], [2, 2]]
KINDS = ['conn', 'prom', 'idx', 'rev', 'repeat', 'in2in', 'up', 'up2', 'idxin2in', 'nest', 'user', 'pbo', 'list',
         'state', 'two']


def run(case, R):
    fresh()
    globals()['run_' + case[0].lower()](case, R)
    R.state(case)


def tup(a, b):
    """exact reference conversion: value_b = (value_a + off) * scale"""
    (d1, f1, o1), (d2, f2, o2) = a, b
    return float(f1) / float(f2), float(o1) - float(o2) * float(f2) / float(f1)


def conv_check(R, sa, sb, ra, rb, tag):
    from openmdao.api import get_conversion_tuple, convert_units
    R.step()
    if ra[0] != rb[0]:
        for f in (lambda: get_conversion_tuple(sa, sb), lambda: convert_units(2., sa, sb)):
            try:
                v = f()
                R.fail(tag + ':incompatible', '%s -> %s gave %s' % (sa, sb, v))
            except TypeError as err:
                pass
        return
    s, o = get_conversion_tuple(sa, sb)
    es, eo = tup(ra, rb)
    R.check(close(s, es), tag + ':factor', '%s -> %s factor %r expected %r' % (sa, sb, s, es))
    R.check(abs(o - eo) <= 1e-9 * max(1, abs(eo)), tag + ':offset', '%s -> %s offset %r expected %r' % (sa, sb, o, eo))
    for v in VALS:
        e = (v + eo) * es
        g = convert_units(v, sa, sb)
        tol = 1e-9 * abs(es) * max(1., abs(eo), abs(v))
        R.check(abs(g - e) <= tol, tag + ':convert', '%r %s -> %s = %r expected %r' % (v, sa, sb, g, e))
        back = convert_units(g, sb, sa)
        R.check(abs(back - v) <= 1e-9 * max(1., abs(v), abs(eo)), tag + ':inverse',
                '%r %s -> %s -> %r' % (v, sa, sb, back))
    R.trace()


def run_p(case, R):
    a = case[1]
    for b in NAMES:
        conv_check(R, a, b, ent(a), ent(b), 'pair')


def run_t(case, R):
    from openmdao.api import convert_units
    a = case[1]
    same = [n for n in NAMES if ent(n)[0] == ent(a)[0]]
    for b in same:
        for c in same:
            for v in VALS:
                x = convert_units(convert_units(v, a, b), b, c)
                y = convert_units(v, a, c)
                off = max(abs(float(ent(n)[2])) * float(ent(n)[1]) for n in (a, b, c)) / float(ent(c)[1])
                R.check(abs(x - y) <= 1e-9 * max(abs(x), abs(y), off), 'compose', '%s %s %s %s' % (a, b, c, v))
            arr = np.array(VALS)
            keep = arr.copy()
            g = convert_units(arr, a, c)
            R.check(np.all(np.abs(g - np.array([convert_units(v, a, c) for v in VALS])) <= 1e-9 * (1 + np.abs(g))),
                    'array', '%s %s' % (a, c))
            R.check(np.all(arr == keep), 'array-input-modified', '%s %s' % (a, c))
            R.step()
    base = base_name(ent(a)[0])
    if ent(a)[0]:
        conv_check(R, a, base, ent(a), (ent(a)[0], Fr(1), Fr(0)), 'base')
        conv_check(R, base, a, (ent(a)[0], Fr(1), Fr(0)), ent(a), 'base')


def run_x(case, R):
    p = case[1]
    for b in PBASE:
        n = p + b
        if n in TAB or n in OTHER or n == 'as':   # (a Python keyword)
            continue
        if p in PRE and any(n.startswith(q) and n[len(q):] in OTHER for q in PRE):
            continue
        f = Fr(10) ** PRE[p] if p in PRE else Fr(2 ** IEC[p])
        dim, fb, o = ent(b)
        conv_check(R, n, b, (dim, fb * f, Fr(0)), ent(b), 'prefix')
        conv_check(R, b, n, ent(b), (dim, fb * f, Fr(0)), 'prefix')
        conv_check(R, n + '/s', b + '/h', (dmul(dim, T, -1), fb * f, Fr(0)),
                   (dmul(dim, T, -1), float(fb) / 3600, Fr(0)), 'prefix-compound')


import re


def ref_expr(s):
    """reference reading of products/quotients/powers of names; None if invalid"""
    dim, fac = (), 1.0
    sign = 1
    off = 0
    toks = re.split(r'(?<!\*)([*/])(?!\*)', s)
    for k, t in enumerate(toks):
        if k % 2:
            sign = 1 if t == '*' else -1
            continue
        n, _, pw = t.partition('**')
        e = lookup(n)
        if e is None:
            return None
        pw = int(pw or 1) * sign
        if e[2] and len(toks) > 1:
            return None
        off = e[2]
        dim = dmul(dim, e[0], pw)
        fac *= float(e[1]) ** pw
    return dim, fac, off


def run_s(case, R):
    """a sequence of lookups from a fresh library; each must not depend on the earlier ones"""
    from openmdao.api import get_conversion_tuple
    for k, n in enumerate(case[1]):
        e = ref_expr(n)
        R.step()
        if e is None:
            try:
                v = get_conversion_tuple(n, n)
                R.fail('history:accepted', '%r accepted after %s' % (n, case[1][:k]))
            except (ValueError, TypeError, KeyError):
                pass
        else:
            b = base_name(e[0])
            try:
                s, o = get_conversion_tuple(n, b)
            except Exception as err:
                R.fail('history:rejected', '%r rejected after %s: %r' % (n, case[1][:k], err))
                continue
            R.check(close(s, e[1], 1e-12) and abs(o - float(e[2])) < 1e-9, 'history:factor',
                    '%r after %s: factor %r offset %r, expected %r %r' % (n, case[1][:k], s, o, e[1], float(e[2])))
    R.trace()


def run_c(case, R):
    _, a, b = case
    for c in ATOMS[:6]:
        for o1, o2 in product('*/', repeat=2):
            for pw in (1, 2, -2, 3):
                s = '%s%s%s**%d%s%s' % (a, o1, b, pw, o2, c)
                e = ref_expr(s)
                if any(float(lookup(n)[2]) for n in (a, b, c)):
                    e = None
                if e is None:
                    from openmdao.api import get_conversion_tuple
                    try:
                        get_conversion_tuple(s, s)
                        R.fail('compound:offset-accepted', s)
                    except TypeError:
                        pass
                    R.step()
                else:
                    conv_check(R, s, base_name(e[0]), e, (e[0], Fr(1), Fr(0)), 'compound')


def run_m(case, R):
    from openmdao.api import get_conversion_tuple, convert_units
    s = BAD[case[1]]
    ok = (ValueError, TypeError, KeyError, SyntaxError, NameError, AttributeError, RuntimeError)
    for nm, f in (('tuple-src', lambda: get_conversion_tuple(s, 'm')), ('tuple-tgt', lambda: get_conversion_tuple('m', s)),
                  ('convert-src', lambda: convert_units(1., s, s)),
                  ('connected-src', lambda: model(s, 'm') if s.strip() else ok_raise()),
                  ('connected-tgt', lambda: model('m', s) if s.strip() else ok_raise())):
        R.step()
        try:
            f()
            R.fail('malformed:' + nm, '%r accepted' % s)
        except ok as err:
            R.check(str(err).strip() != '', 'malformed:message', repr(err))
    R.trace()


def model(a, b):
    from openmdao.api import Component, Problem, Group, IndepVarComp
    prob = Problem(Group())
    c = Component()
    c.add_param('x', 1., units=b)
    c.add_output('y', 1.)
    prob.root.add('p', IndepVarComp('x', 1., units=a))
    prob.root.add('c', c)
    prob.root.connect('p.x', 'c.x')
    prob.setup(check=False)


def ok_raise():
    raise ValueError('empty units are the same as none')


def run_g(case, R):
    from openmdao.api import get_conversion_tuple, Component
    s = GOOD[case[1]]
    dim, f = GOODV[case[1]]
    sc, o = get_conversion_tuple(s, base_name(dim) if dim else 'unitless')
    R.check(close(sc, f) and o == 0, 'wellformed', '%r %r' % (s, sc))
    Component().add_param('x', 1., units=s)
    R.step(2)
    R.trace()


def uconv(a, b):
    if a is None or b is None:
        return 1., 0.
    ra, rb = ref_expr(a), ref_expr(b)
    s, o = tup(ra, rb)
    return s, o * s


def run_w(case, R):
    from openmdao.api import Problem, Group, Component, IndepVarComp
    _, a, b, sh, kind, dk = case
    n = int(np.prod(sh)) if sh else 1
    x0 = (np.arange(n) * .75 + 1.25).reshape(sh) if sh else 1.25
    A = (np.arange(n * n).reshape(n, n) % 5 - 1.5) * .5 + np.eye(n)
    idx = None
    if kind in ('idx', 'idxin2in'):
        idx = list(range(n))[1:] + [0]
    elif kind == 'rev':
        idx = list(range(n))[::-1]
    elif kind == 'repeat':
        idx = [0] * n
    if idx is not None and sh == []:
        return
    ash = [n] if idx is not None else sh
    sc, of = uconv(a, b)

    class C(Component):
        def __init__(self, sq=True):
            super(C, self).__init__()
            kw = {'units': b} if b else {}
            self.add_param('x', np.zeros(ash) if ash else 0., **kw)
            self.add_output('y', np.zeros(ash) if ash else 0.)
            if dk in ('fd', 'cs'):
                self.deriv_options['type'] = dk
                self.deriv_options['form'] = 'central'
            if dk == 'mf':
                self.apply_linear = self._mf

        def solve_nonlinear(self, p, u, r):
            v = p['x']
            f = np.dot(A, v.ravel()) if isinstance(v, np.ndarray) else A[0, 0] * v
            f = f * f
            if ash == []:
                f = f if not isinstance(f, np.ndarray) else f.ravel()[0]
            else:
                f = f.reshape(ash)
            u['y'] = f

        def _J(self, p):
            f = A.dot(flat(p['x']))
            return 2 * f[:, None] * A

        def linearize(self, p, u, r):
            return None if dk == 'mf' else {('y', 'x'): self._J(p)}

        def _mf(self, p, u, dp, du, dr, mode):
            J = self._J(p)
            if 'y' not in dr or 'x' not in dp:
                return
            if mode == 'fwd':
                v = J.dot(flat(dp['x']))
                dr['y'] += v.reshape(ash) if ash else v[0]
            else:
                v = J.T.dot(flat(dr['y']))
                dp['x'] += v.reshape(ash) if ash else v[0]

    class S(Component):
        """state z: 2 z - x = 0, with units"""
        def __init__(self):
            super(S, self).__init__()
            self.add_param('x', np.zeros(sh) if sh else 0., **({'units': b} if b else {}))
            self.add_state('z', np.zeros(sh) if sh else 0., **({'units': a} if a else {}))

        def solve_nonlinear(self, p, u, r):
            u['z'] = .5 * p['x']

        def apply_nonlinear(self, p, u, r):
            r['z'] = 2. * u['z'] - p['x']

        def linearize(self, p, u, r):
            return {('z', 'z'): 2 * np.eye(n), ('z', 'x'): -np.eye(n)}

        def solve_linear(self, dumat, drmat, vois, mode=None):
            for v in vois:
                if mode == 'fwd':
                    self.dumat[v].vec[:] = self.drmat[v].vec / 2
                else:
                    self.drmat[v].vec[:] = self.dumat[v].vec / 2
    prob = Problem()
    root = prob.root = Group()
    pkw = {'units': a} if a else {}
    if kind == 'user':
        comp = root.add('c', C())
        prob.setup(check=False)
        for v in (x0, x0 * -2.):
            prob['c.x'] = v
            prob.run()
            e = (A.dot(flat(v))) ** 2
            R.check(relerr(flat(prob['c.y']), e) < 1e-12, 'model:user', '%s %s' % (prob['c.y'], e))
        R.step(2)
        R.trace()
        return
    if kind == 'pbo':
        seen = []

        class P(Component):
            def __init__(self):
                super(P, self).__init__()
                self.add_param('x', np.zeros(sh) if sh else 0., pass_by_obj=True, **({'units': b} if b else {}))
                self.add_output('y', 0.)

            def solve_nonlinear(self, p, u, r):
                seen.append(np.array(p['x']))

        class Q(Component):
            def __init__(self):
                super(Q, self).__init__()
                self.add_output('x', x0, pass_by_obj=True, **pkw)

            def solve_nonlinear(self, p, u, r):
                pass
        root.add('p', Q())
        root.add('c', P())
        root.connect('p.x', 'c.x')
        prob.setup(check=False)
        prob.run()
        e = flat(x0) * sc + of
        R.check(relerr(flat(seen[-1]), e) < 1e-9, 'model:pbo', '%s expected %s' % (seen[-1], e))
        R.check(relerr(flat(prob['p.x']), flat(x0)) == 0, 'model:pbo-source', str(prob['p.x']))
        prob.run()
        R.check(relerr(flat(seen[-1]), e) < 1e-9, 'model:pbo', '%s expected %s (second run)' % (seen[-1], e))
        R.step(2)
        R.trace()
        return
    xname, yname = 'p.x', 'c.y'
    if kind == 'nest':
        g = root.add('g', Group())
        h = g.add('h', Group(), promotes=['x'])
        h.add('c', C(), promotes=['x'])
        root.add('p', IndepVarComp('x', x0, **pkw))
        root.connect('p.x', 'g.x')
        yname = 'g.h.c.y'
    elif kind == 'prom':
        root.add('p', IndepVarComp('x', x0, **pkw), promotes=['x'])
        root.add('c', C(), promotes=['x'])
        xname = 'x'
    else:
        root.add('p', IndepVarComp('x', x0, **pkw))
        root.add('c', C())
        kw = {} if idx is None else {'src_indices': idx}
        if kind == 'in2in' or kind == 'idxin2in':
            root.add('c2', C())
            root.connect('p.x', 'c2.x', **kw)
            root.connect('c2.x', 'c.x')
        elif kind == 'up':
            root.add('c2', C())
            root.connect('p.x', 'c2.x')
            root.connect('c.x', 'c2.x')
        elif kind == 'up2':
            root.add('c2', C())
            root.connect('p.x', 'c2.x')
            root.add('c3', C())
            root.connect('c3.x', 'c2.x')
            root.connect('c3.x', 'c.x')
        elif kind == 'state':
            root.add('s', S())
            root.connect('p.x', 's.x')
            root.connect('s.z', 'c.x')
        elif kind == 'two':
            root.add('c2', C())
            root.connect('p.x', 'c2.x')
            root.connect('p.x', 'c.x')
        else:
            root.connect('p.x', 'c.x', **kw)
    prob.setup(check=False)
    for xv in (x0, -2. * x0 + 1.):
        prob[xname] = xv
        prob.run()
        R.step()
        xs = flat(xv)
        ds = np.eye(n)
        if kind == 'state':
            xs = (xs * sc + of) / 2     # in units a
            ds = ds * sc / 2
        if idx is not None:
            xs, ds = xs[idx], ds[idx]
        xc = xs * sc + of
        f = A.dot(xc)
        e = f ** 2
        R.check(relerr(flat(prob[yname]), e) < 1e-10, 'model:value', lambda: '%s expected %s' % (prob[yname], e))
        R.check(relerr(flat(prob[xname]), flat(xv)) == 0, 'model:source', str(prob[xname]))
        if kind == 'list':
            continue
        Je = (2 * f[:, None] * A).dot(ds) * sc
        for mode in ('fwd', 'rev'):
            J = prob.calc_gradient([xname], [yname], mode=mode, return_format='dict')[yname][xname]
            R.step()
            R.check(relerr(J, Je) < (1e-4 if dk == 'fd' else 1e-9), 'model:deriv:' + mode,
                    lambda: '%s expected %s' % (J.tolist(), Je.tolist()))
    if kind == 'list':
        import io
        buf = io.StringIO()
        got = root.list_unit_conv(stream=buf)
        want = (sc, of) != (1., 0.) or (a is None) != (b is None)
        R.check(bool(got) == want, 'model:list', '%s %s: %s' % (a, b, got))
        if want and got:
            R.check(list(got) == [(('p.x', 'c.x'), (a, b))], 'model:list', str(got))
    R.trace()
