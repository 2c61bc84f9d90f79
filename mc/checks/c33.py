"""C33: quantities with units: arithmetic, comparison, conversion, printing, and unit libraries."""
from fractions import Fraction
from itertools import product
import io
import math
import os

PID = 'C33'
LEVEL = 'model_checking'
RULE = ('bounded exhaustive enumeration: every operator on every pair of quantities (values x units), every operation on every single quantity, all chains of three '
        'with products, quotients, powers and sums, and all histories of library operations up to the stated length, run on the real code against an independent '
        'semantics of a quantity as a number of base units with a vector of dimensions')
ASSUMPTIONS = ['sums of temperatures with an offset, and names of dimensionless units, are not judged']
NOTE = 'each pair, chain and history in the bounds is run'
CHUNK = 4

# length mass time temperature angle current: power; factor; offset
D = {'m': (1, 0, 0, 0, 0, 0), 's': (0, 0, 1, 0, 0, 0), 'kg': (0, 1, 0, 0, 0, 0), 'K': (0, 0, 0, 1, 0, 0), 'rad': (0, 0, 0, 0, 1, 0), 'A': (0, 0, 0, 0, 0, 1)}
BASE = ['m', 'kg', 's', 'K', 'rad', 'A']
UNITS = {'m': ('m', 1., 0), 'cm': ('m', .01, 0), 'km': ('m', 1000., 0), 'ft': ('m', .3048, 0), 'inch': ('m', .0254, 0), 's': ('s', 1., 0), 'ms': ('s', .001, 0),
         'min': ('s', 60., 0), 'h': ('s', 3600., 0), 'kg': ('kg', 1., 0), 'g': ('kg', .001, 0), 'mg': ('kg', 1e-6, 0), 'K': ('K', 1., 0), 'degK': ('K', 1., 0),
         'degC': ('K', 1., 273.15), 'degR': ('K', 5. / 9, 0), 'degF': ('K', 5. / 9, 459.67), 'rad': ('rad', 1., 0), 'deg': ('rad', math.pi / 180, 0), 'A': ('A', 1., 0),
         'rev': ('rad', 2 * math.pi, 0)}
DERIVED = {'N': ((1, 1, -2), 1.), 'J': ((2, 1, -2), 1.), 'kW': ((2, 1, -3), 1000.), 'Hz': ((0, 0, -1), 1.), 'Pa': ((-1, 1, -2), 1.), 'rpm': ((0, 0, -1, 0, 1), 2 * math.pi / 60),
           'm/s': ((1, 0, -1), 1.), 'm**2': ((2,), 1.), 'cm**2': ((2,), 1e-4), '1/s': ((0, 0, -1), 1.), 'ft**3': ((3,), .3048 ** 3), 'kg*m/s**2': ((1, 1, -2), 1.), 'V': ((2, 1, -3, 0, 0, -1), 1.),
           'cm*m': ((2,), .01), 'ft*m': ((2,), .3048), 'ms**-1': ((0, 0, -1), 1000.), 'kN/cm**2': ((-1, 1, -2), 1e7), '2*m': ((1,), 2.), 'm/2': ((1,), .5), '1/ft**2': ((-2,), .3048 ** -2), 'm**4': ((4,), 1.), 'W/m**2/K': ((0, 1, -3, -1), 1.)}
ALL = {}
for _n, (_b, _f, _o) in UNITS.items():
    ALL[_n] = (tuple(D[_b][[0, 1, 2, 3, 4, 5][k]] for k in range(6)), _f, _o)
_order = {'m': 0, 'kg': 1, 's': 2, 'K': 3, 'rad': 4, 'A': 5}
for _n, (_b, _f, _o) in UNITS.items():
    ALL[_n] = (tuple(1 if k == _order[_b] else 0 for k in range(6)), _f, _o)
for _n, (_p, _f) in DERIVED.items():
    ALL[_n] = (tuple(_p) + (0,) * (6 - len(_p)), _f, 0)
NAMES = sorted(ALL)
VALUES = [2., -3.5, 0.]
CHAIN = ['m', 'cm', 'ft', 's', 'min', 'kg', 'g', 'N', 'm/s', '1/s', 'deg', 'm**2', 'K']


class Ref(object):
    """value in base units, dimensions, and how it is expressed"""

    def __init__(self, value, dims, factor, offset=0):
        self.value, self.dims, self.factor, self.offset = value, tuple(Fraction(d) for d in dims), factor, offset

    def base(self):
        return (self.value + self.offset) * self.factor


def ref(v, n):
    return Ref(v, *ALL[n])


def cases(tier):
    q = tier == 'quick'
    out = [['bin', n] for n in NAMES] + [['one', n] for n in NAMES] + [['tri', a, b] for a in CHAIN for b in CHAIN]
    out += [['text', n] for n in NAMES]
    depth = 2 if q else 3
    for d in range(1, depth + 1):
        out += [['lib', list(h)] for h in product(sorted(LIBOPS), repeat=d)]
    if q:
        out += [['lib', list(h)] for k, h in enumerate(product(sorted(LIBOPS), repeat=3)) if k % 7 == 0]
    return out


def close(a, b, tol=1e-11, scale=0.):
    return abs(a - b) <= tol * max(abs(a), abs(b), scale)


def agree(R, key, got, want, info):
    """the quantity got is the reference want"""
    from openmdao.units.units import PhysicalQuantity
    if not any(want.dims) and not isinstance(got, PhysicalQuantity):
        return R.check(close(got, want.base()), key, [info, got, want.base()])
    if not R.check(isinstance(got, PhysicalQuantity), key + ':kind', [info, repr(got)]):
        return False
    ok = R.check(got.unit.offset == want.offset and close((got.value + want.offset) * got.unit.factor, want.base(), 1e-11, abs(want.offset * want.factor)), key, [info, repr(got), want.base()])
    # dimensions: compared through what it converts to
    for name, dims in (('m', 0), ('kg', 1), ('s', 2), ('K', 3), ('rad', 4), ('A', 5)):
        ok &= R.check(got.unit.powers[index(name)] == want.dims[dims], key + ':dimension', [info, repr(got), name, str(want.dims)])
    return ok


def index(name):
    from openmdao.units.units import PhysicalQuantity
    return [k for k, p in enumerate(PhysicalQuantity(1., name).unit.powers) if p][0]


def intact(R, q, before, info):
    R.check((q.value, q.unit.factor, q.unit.offset, list(q.unit.powers), q.get_unit_name()) == before, 'operand-changed', [info, repr(q), before])


def snap(q):
    return (q.value, q.unit.factor, q.unit.offset, list(q.unit.powers), q.get_unit_name())


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        return None, type(e).__name__


def run(case, R):
    {'bin': run_bin, 'one': run_one, 'tri': run_tri, 'text': run_text, 'lib': run_lib}[case[0]](case, R)
    R.trace()


def run_bin(case, R):
    from openmdao.units.units import PhysicalQuantity as Q
    a = case[1]
    for va in VALUES:
        for b, vb in product(NAMES, VALUES):
            x, y = Q(va, a), Q(vb, b)
            rx, ry = ref(va, a), ref(vb, b)
            bx, by = snap(x), snap(y)
            info = [va, a, vb, b]
            same = rx.dims == ry.dims
            plain = not rx.offset and not ry.offset
            if plain or not same:
                for op, f, s in (('sum', lambda: x + y, 1), ('difference', lambda: x - y, -1)):
                    v, e = attempt(f)
                    if same:
                        if R.check(e is None, op + ':%s' % e, info):
                            R.check(close(v.unit.factor, rx.factor) and close(v.value * v.unit.factor, rx.base() + s * ry.base(), 1e-11, abs(rx.base())), op, [info, repr(v)])
                            R.check(v.get_unit_name() == bx[4], op + '-unit', [info, repr(v)])
                    else:
                        R.check(e == 'TypeError', op + '-incompatible', [info, e, repr(v)])
            for op, f, sgn in (('product', lambda: x * y, 1), ('quotient', lambda: x / y, -1)):
                if sgn < 0 and vb == 0.:
                    continue
                v, e = attempt(f)
                if not plain:
                    R.check(e == 'TypeError', op + '-of-offset-units', [info, e, repr(v)])
                elif R.check(e is None, op + ':%s' % e, info):
                    w = Ref(va * vb if sgn > 0 else va / vb, [p + sgn * r for p, r in zip(rx.dims, ry.dims)], rx.factor * ry.factor if sgn > 0 else rx.factor / ry.factor)
                    agree(R, op, v, w, info)
                    if any(w.dims):
                        R.check(close(v.value, w.value), op + '-value', [info, repr(v)])
            near = same and close(rx.base(), ry.base(), 1e-9, 1e-9)
            v, e = attempt(lambda: x == y)
            R.check(e is None and (near or v is False), 'equal', [info, v, e])
            if a == b and va == vb:
                R.check(v is True, 'equal-to-itself', info)
            v, e = attempt(lambda: x != y)
            R.check(e is None and (v is True or near), 'unequal', [info, v, e])
            if va == vb == 2. and (a, b) in (('degC', 'degK'), ('m', 'm'), ('km', 'm')):
                z = x.in_units_of(b)
                R.check(z == x and not z != x, 'equal-after-conversion', info)
            for op, f, w in (('less', lambda: x < y, rx.base() < ry.base()), ('greater', lambda: x > y, rx.base() > ry.base())):
                v, e = attempt(f)
                if not same:
                    R.check(e == 'TypeError', op + '-incompatible', [info, e, v])
                elif not near:
                    R.check(e is None and v is w, op, [info, v, e, w])
            R.check(x.is_compatible(b) is same, 'compatible', info)
            intact(R, x, bx, info)
            intact(R, y, by, info)
            R.state(info)
            R.step(8)


def run_one(case, R):
    from openmdao.units.units import PhysicalQuantity as Q, convert_units
    a = case[1]
    for va in VALUES + [1e-7, 12345678.9]:
        rx = ref(va, a)
        x = Q(va, a)
        b = snap(x)
        info = [va, a]
        for op, f, w in (('negative', lambda: -x, -va), ('absolute', lambda: abs(x), abs(va)), ('plus', lambda: +x, va), ('times', lambda: x * 3, va * 3), ('times', lambda: 3 * x, va * 3),
                         ('over', lambda: x / 4., va / 4.)):
            v, e = attempt(f)
            if R.check(e is None, op + ':%s' % e, info):
                agree(R, op, v, Ref(w, rx.dims, rx.factor, rx.offset), info)
        for op, f in (('number', lambda: x + 5), ('number', lambda: 5 + x), ('number', lambda: x - 5), ('number', lambda: 5 - x), ('number', lambda: x < 5), ('exponent', lambda: 2 ** x), ('exponent', lambda: x ** x)):
            v, e = attempt(f)
            R.check(e == 'TypeError', 'refuse-' + op, [info, e, repr(v)])
        for other in (5, 'm', None, va):
            v, e = attempt(lambda: x == other)
            R.check(e is None and v is False, 'equal-to-no-quantity', [info, repr(other), v, e])
        R.check(bool(x) is (va != 0.), 'truth', info)
        R.check(x.get_value() == va, 'value', info)
        for n in (-3, -2, -1, 1, 2, 3):
            if va == 0. and n < 0:
                continue
            v, e = attempt(lambda: x ** n)
            if rx.offset:
                R.check(e == 'TypeError', 'power-of-offset', [info, n, e])
            elif R.check(e is None, 'power:%s' % e, [info, n]):
                agree(R, 'power', v, Ref(va ** n, [d * n for d in rx.dims], rx.factor ** n), info + [n])
                round_trip(R, v, info + [n])
        if va and not rx.offset:
            v, e = attempt(lambda: 3. / x)
            if R.check(e is None, 'inverse:%s' % e, info):
                agree(R, 'inverse', v, Ref(3. / va, [-d for d in rx.dims], 1 / rx.factor), info)
                round_trip(R, v, info + ['inverse'])
        for k in (2, 3, 4):
            if va < 0:
                continue
            v, e = attempt(lambda: x ** (1. / k) if k > 2 else x.sqrt())
            if rx.offset or any(d % k for d in rx.dims):
                R.check(e == 'TypeError', 'root-refused', [info, k, e, repr(v)])
            elif R.check(e is None, 'root:%s' % e, [info, k]):
                if agree(R, 'root', v, Ref(va ** (1. / k), [d / k for d in rx.dims], rx.factor ** (1. / k)), info + [k]):
                    round_trip(R, v, info + ['root', k])
                    chain(R, v, info + ['root', k])
        angle = rx.dims == (0, 0, 0, 0, 1, 0)
        for op, g in (('sin', math.sin), ('cos', math.cos), ('tan', math.tan)):
            v, e = attempt(lambda: getattr(x, op)())
            R.check((e is None and close(v, g(rx.base()), 1e-7, 1e-7)) if angle else e == 'TypeError', op, [info, v, e])
        for n in NAMES:
            r = ref(1., n)
            w = rx.base() / r.factor - r.offset
            for op, f in (('in_units_of', lambda: x.in_units_of(n)), ('convert_to_unit', lambda: converted(Q(va, a), n)), ('convert_units', lambda: Q(convert_units(va, a, n), n))):
                v, e = attempt(f)
                if r.dims != rx.dims:
                    R.check(e == 'TypeError', op + '-incompatible', [info, n, e])
                elif R.check(e is None, op + ':%s' % e, [info, n]):
                    R.check(close(v.value, w, 1e-11, abs(r.offset)) and close(v.unit.factor, r.factor) and v.unit.offset == r.offset, op, [info, n, repr(v), w])
                    v2, e = attempt(lambda: v.in_units_of(a))
                    R.check(e is None and close(v2.value, va, 1e-10, rx.offset + r.offset * r.factor / rx.factor), op + '-back', [info, n, repr(v2), e])
        v, e = attempt(lambda: x.in_base_units())
        if R.check(e is None, 'base:%s' % e, info):
            R.check(close(v.value, rx.base(), 1e-11, abs(rx.offset)) and v.unit.factor == 1. and v.unit.offset == 0., 'base', [info, repr(v), rx.base()])
            R.check(list(v.unit.powers) == list(x.unit.powers), 'base-dimension', [info, repr(v)])
        round_trip(R, x, info)
        intact(R, x, b, info)
        R.state(info)
        R.step(len(NAMES))


def converted(q, n):
    q.convert_to_unit(n)
    return q


def chain(R, v, info):
    """what an operation returns can be used further"""
    for op, f in (('base', lambda: v.in_base_units()), ('square', lambda: v ** 2), ('sum', lambda: v + v), ('product', lambda: (v * v) / 2.)):
        w, e = attempt(f)
        R.check(e is None, 'continue-%s:%s' % (op, e), info)


def round_trip(R, q, info):
    """what is printed is read back as the same quantity"""
    from openmdao.units.units import PhysicalQuantity as Q
    for how, f in (('str', lambda: Q(str(q))), ('name', lambda: Q(q.get_value(), q.get_unit_name())), ('repr', lambda: eval(repr(q), {'PhysicalQuantity': Q}))):
        v, e = attempt(f)
        if R.check(e is None, 'read-back:%s' % e, [info, how, attempt(lambda: str(q))]):
            R.check(v.value == q.value and close(v.unit.factor, q.unit.factor) and v.unit.offset == q.unit.offset and list(v.unit.powers) == list(q.unit.powers), 'read-back', [info, how, str(q), repr(v)])


def run_tri(case, R):
    from openmdao.units.units import PhysicalQuantity as Q
    _, a, b = case
    ops = {'*': (lambda x, y: x * y, 1), '/': (lambda x, y: x / y, -1)}
    for c in CHAIN:
        for o1, o2, group in product('*/', '*/', (0, 1)):
            x, y, z = Q(2., a), Q(-4., b), Q(.5, c)
            before = [snap(t) for t in (x, y, z)]
            f1, s1 = ops[o1]
            f2, s2 = ops[o2]
            info = [a, o1, b, o2, c, group]
            v, e = attempt(lambda: f1(x, f2(y, z)) if group else f2(f1(x, y), z))
            sy, sz = s1, s2 * (s1 if group else 1)
            if not R.check(e is None, 'chain:%s' % e, info):
                continue
            ra, rb, rc = [ref(1., n) for n in (a, b, c)]
            f = ra.factor * rb.factor ** sy * rc.factor ** sz
            w = Ref(2. * (-4.) ** sy * .5 ** sz, [p + sy * q + sz * r for p, q, r in zip(ra.dims, rb.dims, rc.dims)], f)
            R.state(info)
            R.step()
            inner = [p + s2 * q for p, q in zip(rb.dims, rc.dims)] if group else [p + s1 * q for p, q in zip(ra.dims, rb.dims)]
            if not any(inner):
                # a dimensionless intermediate result is a plain number in terms of base units
                R.check(close((v.value * v.unit.factor) if isinstance(v, Q) else v, w.base()), 'chain-number', [info, repr(v), w.base()])
                continue
            if agree(R, 'chain', v, w, info) and any(w.dims):
                round_trip(R, v, info)
                for n in CHAIN:
                    if ref(1., n).dims == w.dims:
                        t, e = attempt(lambda: v + Q(1., n))
                        R.check(e is None and close(t.value * t.unit.factor, w.base() + ref(1., n).base(), 1e-10, abs(w.base())), 'chain-sum', [info, n, e])
            for t, s in zip((x, y, z), before):
                intact(R, t, s, info)


def run_text(case, R):
    from openmdao.units.units import PhysicalQuantity as Q
    n = case[1]
    r = ref(1., n)
    for num, v in (('1', 1.), ('-2', -2.), ('+3', 3.), ('4.', 4.), ('2.5', 2.5), ('1e3', 1000.), ('1.5E-2', .015), ('-1e+2', -100.)):
        for gap, pad in product(('', ' ', '  '), ('', ' ')):
            if not gap and not n[0].isalpha():
                continue
            q, e = attempt(lambda: Q(pad + num + gap + n + pad))
            if R.check(e is None, 'text:%s' % e, [num, gap, n]):
                agree(R, 'text', q, Ref(v, r.dims, r.factor, r.offset), [num, gap, n])
            R.state([num, gap, n, pad])
    for text in ('m', '', 'e3 m', '- 5'):
        q, e = attempt(lambda: Q(text + ' ' + n))
        R.check(e is not None or (n[0] in '12' and text == ''), 'text-refused', [text, n, e, repr(q)])
    R.step()


# ------------------------------------------------------------------ libraries
def _lib(lines):
    return lambda u: u.update_library(io.StringIO(u'[units]\n' + u'\n'.join(lines) + u'\n'))


LIBOPS = {
    'add': (lambda u: u.add_unit('zzlen', '2*m'), {'zzlen': ('m', 2., 0)}),
    'add-other': (lambda u: u.add_unit('zzlen', '3*m'), {'zzlen': ('m', 3., 0)}),
    'alias': (lambda u: u.add_unit('zzal', 'm'), {'zzal': ('m', 1., 0)}),
    'alias-object': (lambda u: u.add_unit('zzft', u.PhysicalQuantity(1., 'ft').unit), {'zzft': ('m', .3048, 0)}),
    'take-s': (lambda u: u.add_unit('s', 'm'), {'s': ('m', 1., 0)}),
    'take-degC': (lambda u: u.add_unit('degC', 'K'), {'degC': ('K', 1., 0)}),
    'offset': (lambda u: u.add_offset_unit('zztemp', 'K', 2., 5.), {'zztemp': ('K', 2., 5.)}),
    'offset-other': (lambda u: u.add_offset_unit('zztemp', 'K', 2., 6.), {'zztemp': ('K', 2., 6.)}),
    'offset-ft': (lambda u: u.add_offset_unit('ft', 'm', .5, 0.), {'ft': ('m', .5, 0)}),
    'library': (_lib([u'zzb: 3*zza, later first', u'zza: 2*s, two seconds']), {'zza': ('s', 2., 0), 'zzb': ('s', 6., 0)}),
    'library-offset': (_lib([u'zzt2: 2, zzk, 3, offset', u'zzk: 5*K, base']), {'zzt2': ('K', 10., 3.), 'zzk': ('K', 5., 0)}),
    'library-file': (None, {'zzfile': ('kg', 7., 0)}),
    'use-prefix': (lambda u: u.PhysicalQuantity('1 kzzlen'), None),
    'use': (lambda u: (u.PhysicalQuantity('1 km'), u.PhysicalQuantity('1 degC')), {}),
    'unresolved': (_lib([u'zzbad: 2*zznone, unknown']), 'ValueError'),
    'bad-format': (_lib([u'zzbad2: 2*m, a, b']), 'ValueError'),
}


def run_lib(case, R):
    from openmdao.units import units as u
    ini = os.path.join(os.path.dirname(u.__file__), 'unit_library.ini')

    def fresh():
        with open(ini) as f:
            u.import_library(f)
    fresh()
    try:
        known = dict((n, UNITS[n]) for n in ('m', 's', 'ft', 'km', 'degC', 'degF', 'K', 'min', 'kg'))
        for step in case[1]:
            f, defs = LIBOPS[step]
            if step == 'library-file':
                def f(u):
                    import tempfile
                    import shutil
                    d = tempfile.mkdtemp(prefix='c33')
                    try:
                        with open(os.path.join(d, 'lib.ini'), 'w') as o:
                            o.write('[units]\nzzfile: 7*kg, seven\n')
                        u.update_library(os.path.join(d, 'lib.ini'))
                    finally:
                        shutil.rmtree(d)
            v, e = attempt(lambda: f(u))
            if step == 'use-prefix':
                R.check((e is None) is ('zzlen' in known), 'prefix-of-new-unit', [case[1], e])
            elif isinstance(defs, str):
                R.check(e == defs, 'library-refused', [case[1], step, e])
            else:
                clash = any(n in known and (known[n][0] != d[0] or not close(known[n][1], d[1]) or known[n][2] != d[2]) for n, d in defs.items())
                if clash:
                    R.check(e == 'KeyError', 'redefinition', [case[1], step, e])
                elif R.check(e is None, 'define:%s' % e, [case[1], step]):
                    known.update(defs)
            probe(R, u, known, [case[1], step])
            R.state([case[1], step])
            R.step()
    finally:
        fresh()


def probe(R, u, known, info):
    for n in sorted(known):
        b, f, o = known[n]
        q, e = attempt(lambda: u.PhysicalQuantity(10., n))
        if not R.check(e is None, 'known:%s' % e, [info, n]):
            continue
        t, e = attempt(lambda: q.in_base_units())
        R.check(e is None and close(t.value, (10. + o) * f), 'known-value', [info, n, repr(t), e])
        t, e = attempt(lambda: q.in_units_of(b))
        R.check(e is None and close(t.value, (10. + o) * f), 'known-conversion', [info, n, repr(t), e])
        t, e = attempt(lambda: u.PhysicalQuantity(str(q)))
        R.check(e is None and close(t.value, 10.) and close(t.unit.factor, f) and t.unit.offset == o and list(t.unit.powers) == list(q.unit.powers), 'known-name', [info, n, str(q), e])
    for n in ('zznone', 'zzbad', 'zzbad2') + tuple(x for x in ('zzlen', 'zzal', 'zztemp', 'zza', 'zzfile') if x not in known):
        t, e = attempt(lambda: u.PhysicalQuantity(1., n))
        R.check(e is not None, 'unknown-unit', [info, n, repr(t)])
