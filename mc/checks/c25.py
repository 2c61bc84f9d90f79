"""C25: file wrappers and namelists."""
from itertools import product, combinations
import io
import math
import os
import shutil
import string
import tempfile
import contextlib
import warnings
import numpy as np

PID = 'C25'
LEVEL = 'model_checking'
RULE = ('exhaustive enumeration of templates, delimiter sets, values, addresses and all sequences of anchor, transfer, clear and reset operations up to a '
        'depth: the text written by the real generator is compared with a line-and-field model, and everything written is read back through the real '
        'parser; all lines of up to three tokens are parsed; all namelists of up to two cards per value kind and group structure are written, parsed and loaded')
ASSUMPTIONS = ['two anchors on one line, a reverse search from an anchor when the last line holds it, values longer than a template in the middle of a line, '
               'quoted fields and fields glued to punctuation are left open', 'floats are written with 16 digits']
NOTE = 'strings of a namelist contain no line breaks'

INF, NAN = float('inf'), float('nan')


# ------------------------------------------------------------------ the model of a text file

class Open(Exception):
    """the documentation leaves the outcome open"""


class Doc(object):
    def __init__(self, text, delim):
        self.lines = text.split('\n')
        self.tail = self.lines.pop() if self.lines and self.lines[-1] == '' else None
        self.delim = delim
        self.row = 0
        self.anchored = False
        self.names = []

    def spans(self, row):
        out, start = [], None
        line = self.lines[row]
        for i, c in enumerate(line + self.delim[0]):
            if c in self.delim:
                if start is not None:
                    out.append((start, i))
                    start = None
            elif start is None:
                start = i
        return out

    def fields(self, row):
        return [self.lines[row][a:b] for a, b in self.spans(row)]

    def put(self, row, field, text):
        a, b = self.spans(row)[field - 1]
        self.lines[row] = self.lines[row][:a] + text + self.lines[row][b:]

    def mark(self, anchor, occ):
        rows = [i for i, l in enumerate(self.lines) if anchor in l]
        if occ > 0:
            if self.anchored:
                if anchor != self.last and anchor in self.lines[self.row]:
                    raise Open()
                if self.lines[self.row].count(anchor) > 1:
                    raise Open()
                rows = [i for i in rows if i > self.row]
            else:
                rows = [i for i in rows if i >= self.row]
            if len(rows) < occ:
                raise RuntimeError()
            self.row = rows[occ - 1]
        else:
            if self.anchored and anchor in self.lines[-1]:
                raise Open()
            if len(rows) < -occ:
                raise RuntimeError()
            self.row = rows[occ]
        self.anchored = True
        self.last = anchor

    def reset(self):
        self.row = 0
        self.anchored = False

    def at(self, r):
        j = self.row + r
        if not 0 <= j < len(self.lines):
            raise IndexError()
        return j

    def text(self):
        return ''.join(l + '\n' for l in self.lines)


def number(tok):
    """what a field is: int, float or its text"""
    t = tok
    if t in ('NaN', 'nan', 'NaN%', 'NaNQ', 'NaNS', 'qNaN', 'sNaN', '1.#SNAN', '1.#QNAN', '-1.#IND'):
        return NAN
    if t in ('Inf', 'inf', '+inf', '+Inf'):
        return INF
    if t in ('-Inf', '-inf'):
        return -INF
    body = t[1:] if t[:1] in '+-' else t
    if body and all(c in string.digits for c in body):
        return int(t)
    m = body.replace('D', 'e').replace('d', 'e').replace('E', 'e')
    man, e, ex = m.partition('e')
    if e and not (ex[1:] if ex[:1] in ('+', '-') else ex).isdigit():
        return t
    if man.count('.') <= 1 and man.replace('.', '').isdigit() and all(c in string.digits + '.' for c in man):
        return float(('-' if t[0] == '-' else '') + m)
    return t


def agree(a, b, tol=0.):
    if isinstance(a, (str, np.str_)) or isinstance(b, (str, np.str_)):
        return isinstance(a, (str, np.str_)) and isinstance(b, (str, np.str_)) and str(a) == str(b)
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)) and bool(a) == bool(b)
    try:
        a, b = (int(a) if isinstance(a, (int, np.integer)) else float(a)), (int(b) if isinstance(b, (int, np.integer)) else float(b))
    except (TypeError, ValueError):
        return False
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    return abs(a - b) <= tol * max(abs(a), abs(b))


def sametype(a, b):
    return isinstance(a, (int, np.integer)) == isinstance(b, (int, np.integer)) and isinstance(a, str) == isinstance(b, str)


class Scratch(object):
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='mc25-')

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, text):
        with open(self.path(name), 'w') as f:
            f.write(text)
        return self.path(name)

    def read(self, name):
        with open(self.path(name)) as f:
            return f.read()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def generator(S, text, delim=None):
    from openmdao.util.file_wrap import InputFileGenerator
    g = InputFileGenerator()
    g.set_template_file(S.write('template', text))
    g.set_generated_file(S.path('out'))
    if delim is not None:
        g.set_delimiters(delim)
    return g


def parser(S, name, delim=None, **kw):
    from openmdao.util.file_wrap import FileParser
    p = FileParser(**kw)
    p.set_file(S.path(name))
    if delim is not None:
        p.set_delimiters(delim)
    return p


# ------------------------------------------------------------------ written values

DELIMS = [None, ' ', ' \t', ', ', ',', ';', ':', '=', ' =', '|', '\t', '-', ']', '^', '\\', '[', '/', '+*', 'x-z', '.', ' ,;']
FLOATS = [0., 1., -1., .5, -2.25, 1. / 3., 2. / 3. * 1e-7, -1e-20, 1e-20, 1e22, -1.5e300, 1e300, 5e-324, 123456789.123, 1e16, 1e-5, -3e-5, 1.7976931348623157e308,
          NAN, INF, -INF, 65000., 1e5, 12345678901234567., -0.1]
INTS = [0, 7, -3, 10 ** 20, -10 ** 12]
STRINGS = ['abc', 'a_b', 'Information', 'Infinite', 'nano', 'NaNcy', 'inform', 'Inf_a', '12abc', '3x', '1.5mm', '-5deg', 'file.txt', 'e5', 'D3', '-', '+', '.', 'a,b', 'a"b', "it's",
           'C:\\tmp', 'x=3', '(1)', 'a;b', '$x', '`x`', '#1', 'T', 'True', 'None', '1e', '1e5x', '2D', '5e-', '-a', '--', 'a-1', 'e-5', '-e5', '{a}', '\\1', '\\g<0>', '%d', '%s', '&', 'NaN%', u'a']
BOOLS = [True, False]
KINDS = [('float', FLOATS), ('int', INTS), ('str', STRINGS), ('bool', BOOLS), ('npfloat', [np.float64(v) for v in FLOATS]), ('npint', [np.int64(5), np.int32(-4)])]


def written(v):
    """the text a value may have in the file is judged through number(); here: what is read back"""
    if isinstance(v, (bool, np.bool_)):
        return str(v)
    if isinstance(v, str):
        return number(v)
    return v


def text_of(v):
    """a text containing all characters the value may be written with"""
    if isinstance(v, (bool, np.bool_, str)):
        return str(v)
    if isinstance(v, (int, np.integer)):
        return str(v)
    if v != v:
        return 'nan'
    if v in (INF, -INF):
        return 'inf-'
    return '0.-+e' if abs(v) < 1e-4 or abs(v) >= 1e15 else ('0.' + ('-' if str(float(v))[0] == '-' else ''))


def template_for(delim, nf, rows=3):
    d = delim or ' '
    sep = d[:1] if d != ', ' else ', '
    out = []
    for r in range(rows):
        words = ['%s%d%d' % ('w', r, f) for f in range(nf)]
        out.append(sep.join(words))
    return '\n'.join(out) + '\n'


def values_case(case, R):
    delim = DELIMS[case[1]]
    kind, vals = KINDS[case[2]]
    d = delim or ' '
    with Scratch() as S:
        for v in vals:
            if set(text_of(v)) & set(d) or (not isinstance(v, str) and '.' in d):
                continue
            if delim is None and isinstance(v, str) and '\t' in v:
                continue
            if set('w0123456789') & set(d):
                continue
            for nf in (1, 2, 4):
                text = template_for(delim, nf)
                for row in range(3):
                    for field in range(1, nf + 1):
                        R.step()
                        doc = Doc(text, d)
                        label = 'delim-%r-%s' % (d, kind)
                        try:
                            g = generator(S, text, delim)
                            g.transfer_var(v, row, field)
                            g.generate()
                            got = S.read('out')
                        except Exception as err:
                            R.fail('write-error-%s' % kind, (label, repr(v), repr(err)))
                            return
                        before = doc.fields(row)
                        doc.put(row, field, '\0')
                        a, b = doc.text().split('\0')
                        if not R.check(got.startswith(a) and got.endswith(b) and len(got) >= len(a) + len(b), 'rest-changed-' + kind, (label, repr(v), text, got)):
                            return
                        mid = got[len(a):len(got) - len(b)]
                        want = written(v)
                        R.check(agree(number(mid), want, 1.01e-15), 'wrong-text-' + kind, (label, repr(v), mid))
                        try:
                            p = parser(S, 'out', delim)
                            back = p.transfer_var(row, field)
                            others = [p.transfer_var(row, f) for f in range(1, nf + 1)]
                        except Exception as err:
                            R.fail('read-error-%s' % kind, (label, repr(v), got, repr(err)))
                            continue
                        R.check(agree(back, want, 1.01e-15), 'read-back-%s' % kind, (label, repr(v), mid, repr(back)))
                        R.check(all(f + 1 == field or others[f] == before[f] for f in range(nf)), 'read-back-neighbour-%s' % kind, (label, repr(v), got, others))
                        if not isinstance(v, str):
                            R.check(not isinstance(want, (str, float)) or sametype(back, want), 'read-back-type-' + kind, (label, repr(v), repr(back)))
                R.state((case, repr(v), nf))
        R.trace()


# ------------------------------------------------------------------ sequences of generator operations

TEMPLATES = ['A 1 2\nx 3\nB 4 5 6\nA\ny 7\n', 'x\nA 1\nA 2\nA 3\nz 9 8\n', '  B  a  b\n\nA  1\t2\n x 4\nB q\nend\n', 'A\n', 'B 1 A\nA 2\nB 3\nA 4\nx\n',
             'k 1\nk 2\nk 3\n', 'aAb 1 2 3\nAA\nx 1\n', '\n\nA 1 2\n\n']


def gen_ops():
    ops = [('mark', a, o) for a in 'AB' for o in (1, 2, -1, -2)] + [('mark', 'A', 3), ('reset',)]
    ops += [('var', v, r, f) for v, r, f in ((7.5, 0, 1), (-2, 1, 2), ('q', 0, 2), (3., -1, 1), ('A', 1, 1), ('', 0, 2))]
    ops += [('clear', 0), ('clear', 1)]
    ops += [('array', [1.5, 2.], 0, 1, 2), ('array', [1, 2, 3], 0, 2, 3), ('array', [1., 2., 3.], 0, 2, 1, 1), ('2d', 0, 0, 1, 2), ('2d', 0, 1, 1, 1)]
    return ops


def apply_model(doc, op):
    if op[0] == 'mark':
        doc.mark(op[1], op[2])
    elif op[0] == 'reset':
        doc.reset()
    elif op[0] == 'clear':
        doc.lines[doc.at(op[1])] = ''
    elif op[0] == 'var':
        j = doc.at(op[2])
        if op[3] > len(doc.fields(j)):
            raise Open()
        v = op[1]
        doc.put(j, op[3], v if isinstance(v, str) else ('%.1f' % v if isinstance(v, float) and v == int(v) else '%.16g' % v if isinstance(v, float) else str(v)))
    elif op[0] == 'array':
        vals = list(op[1])
        rows = list(range(op[2], (op[5] if len(op) > 5 else op[2]) + 1))
        first = op[3]
        js = [doc.at(r) for r in rows]
        slots = []
        for k, j in enumerate(js):
            n = len(doc.fields(j))
            for f in range(first, (min(op[4], n) if k == len(js) - 1 else n) + 1):
                slots.append((j, f))
            first = 1
        if len(vals) > len(slots) and op[4] < len(doc.fields(js[-1])):
            raise Open()
        if len(vals) < len(slots):
            raise Open()
        for v, (j, f) in zip(vals, slots):
            doc.put(j, f, '%.1f' % v if isinstance(v, float) and v == int(v) else str(v))
        if len(vals) > len(slots):
            line = doc.lines[js[-1]].rstrip()
            for v in vals[len(slots):]:
                line += ', ' + str(v)
            doc.lines[js[-1]] = line
    elif op[0] == '2d':
        js = [doc.at(r) for r in range(op[1], op[2] + 1)]
        for k, j in enumerate(js):
            if len(doc.fields(j)) < op[4]:
                raise Open()
        for k, j in enumerate(js):
            for f in range(op[3], op[4] + 1):
                doc.put(j, f, '%.2f' % (k + 1.25 * f + .01))


def apply_real(g, op):
    if op[0] == 'mark':
        g.mark_anchor(op[1], op[2])
    elif op[0] == 'reset':
        g.reset_anchor()
    elif op[0] == 'clear':
        g.clearline(op[1])
    elif op[0] == 'var':
        g.transfer_var(op[1], op[2], op[3])
    elif op[0] == 'array':
        g.transfer_array(op[1], op[2], op[3], op[4], row_end=op[5] if len(op) > 5 else None)
    elif op[0] == '2d':
        vals = np.array([[float('%.2f' % (k + 1.25 * f + .01)) for f in range(op[3], op[4] + 1)] for k in range(op[2] - op[1] + 1)])
        g.transfer_2Darray(vals, op[1], op[2], op[3], op[4])


def ops_case(case, R):
    text, depth = TEMPLATES[case[1]], case[2]
    ops = gen_ops()
    first = ops[case[3]]
    with Scratch() as S:
        for rest in product(ops, repeat=depth - 1):
            seq = (first,) + rest
            doc = Doc(text, ' ')
            g = generator(S, text)
            done = []
            for op in seq:
                R.step()
                try:
                    apply_model(doc, op)
                    bad = None
                except Open:
                    break
                except (RuntimeError, IndexError) as err:
                    bad = err
                try:
                    apply_real(g, op)
                    err = None
                except Exception as e:
                    err = e
                done.append(op)
                if bad is not None:
                    R.check(err is not None, 'no-error-%s-%s' % (op[0], type(bad).__name__), (text, done))
                    if op[0] == 'mark':
                        R.check(err is None or isinstance(err, RuntimeError), 'wrong-error-mark', (text, done, repr(err)))
                    break
                if not R.check(err is None, 'error-' + op[0], (text, done, repr(err))):
                    break
            else:
                g.generate()
                got = S.read('out')
                R.check(got == doc.text(), 'text-' + seq[-1][0] + ('-after-mark' if any(o[0] == 'mark' for o in seq) else ''), (text, done, doc.text(), got))
                R.state((case[1], seq))
        R.trace()


# ------------------------------------------------------------------ arrays

def array_case(case, R):
    """arrays over rows: template nfields per row, start, end, length"""
    _, nrows, start, seplen = case
    kinds = {'float': lambda i: 1.5 + i, 'whole': lambda i: float(i - 2), 'int': lambda i: i - 1, 'str': lambda i: 's%d' % i}
    with Scratch() as S:
        for shape in product((1, 2, 4), repeat=nrows):
            text = 'head\n' + ''.join(' '.join('t%d%d' % (r, f) for f in range(n)) + '\n' for r, n in enumerate(shape)) + 'tail 1\n'
            if start > shape[0]:
                continue
            slots = [(r, f) for r, n in enumerate(shape) for f in range(start if r == 0 else 1, n + 1)]
            for extra in (0, 1, 2):
                for kname in sorted(kinds):
                    for cont in ('list', 'array'):
                        if cont == 'array' and kname == 'str' and extra:
                            continue
                        R.step()
                        vals = [kinds[kname](i) for i in range(len(slots) + extra)]
                        give = vals if cont == 'list' else np.array(vals)
                        doc = Doc(text, ' ')
                        sep = [', ', ' ', ';'][seplen]
                        f_end = shape[-1] + extra
                        g = generator(S, text)
                        try:
                            if nrows == 1:
                                g.transfer_array(give, 1, start, f_end, sep=sep)
                            else:
                                g.transfer_array(give, 1, start, f_end, row_end=nrows, sep=sep)
                            g.generate()
                        except Exception as err:
                            R.fail('array-error-%s-%s' % (kname, cont), (text, start, repr(give), repr(err)))
                            continue
                        got = S.read('out').split('\n')
                        want = Doc(text, ' ')
                        for v, (r, f) in zip(vals, slots):
                            want.put(r + 1, f, str(v))
                        for v in vals[len(slots):]:
                            want.lines[nrows] += sep + str(v)
                        key = 'array-text-%s%s' % ('over' if extra else 'fits', '-multirow' if nrows > 1 else '')
                        R.check('\n'.join(got) == want.text(), key, (text, start, repr(give), want.text(), '\n'.join(got)))
                        # the array is read back
                        d = ' ' if not extra else ' ,;'
                        p = parser(S, 'out', d)
                        try:
                            back = p.transfer_array(1, start, nrows if nrows > 1 else None, f_end)
                        except Exception as err:
                            R.fail('array-read-error', (text, repr(give), repr(err)))
                            continue
                        R.check(len(back) == len(vals) and all(agree(b, v) for b, v in zip(back, vals)), 'array-back-%s%s' % (kname, '-multirow' if nrows > 1 else ''), (text, start, repr(give), repr(back)))
                        R.state((shape, extra, kname, cont, start, seplen))
        R.trace()


def array2_case(case, R):
    _, nr, nc = case
    with Scratch() as S:
        for pre, post in product((0, 1, 2), (0, 1)):
            text = 'Z head\n' + ''.join(' '.join('t%d%d' % (r, f) for f in range(pre + nc + post)) + '\n' for r in range(nr)) + 'tail 1\n'
            for anchor, base in ((None, 1), ('Z', 1), ('tail', -nr)):
                for vals in (np.arange(nr * nc).reshape(nr, nc) * 1.5 - 2., np.arange(nr * nc).reshape(nr, nc), np.arange(nr * nc).reshape(nr, nc) * 1e-9 + 1. / 3.,
                             np.array([[[-1e-20, INF, NAN, 1e30][(i + j) % 4] for j in range(nc)] for i in range(nr)])):
                    R.step()
                    g = generator(S, text)
                    if anchor:
                        g.mark_anchor(anchor)
                    try:
                        g.transfer_2Darray(vals, base, base + nr - 1, pre + 1, pre + nc)
                        g.generate()
                    except Exception as err:
                        R.fail('2d-error', (text, repr(vals), repr(err)))
                        continue
                    doc = Doc(S.read('out'), ' ')
                    ref = Doc(text, ' ')
                    ok = len(doc.lines) == len(ref.lines)
                    for r in range(len(ref.lines)):
                        f0, f1 = ref.fields(r), doc.fields(r) if ok else []
                        inside = 1 <= r <= nr
                        ok = ok and len(f0) == len(f1) and all(f1[k] == f0[k] if not (inside and pre <= k < pre + nc) else agree(number(f1[k]), vals[r - 1, k - pre], 1.01e-15) for k in range(len(f0)))
                    R.check(ok, '2d-text', (text, repr(vals), doc.text()))
                    p = parser(S, 'out')
                    if anchor:
                        p.mark_anchor(anchor)
                    for end in ([pre + nc, None] if not post else [pre + nc]):
                        try:
                            back = p.transfer_2Darray(base, pre + 1, base + nr - 1, end)
                        except Exception as err:
                            R.fail('2d-read-error', (text, repr(vals), repr(err)))
                            continue
                        R.check(back.shape == vals.shape and all(agree(b, v, 1.01e-15) for b, v in zip(back.flat, vals.flat)), '2d-back', (text, repr(vals), repr(back)))
                    R.state((case, pre, post, anchor))
            # a short row is no array
            if nc > 1 and nr > 1:
                for short in range(1, nr):
                    t = ''.join(' '.join('%d' % (r + f) for f in range(nc - (1 if r == short else 0))) + '\n' for r in range(nr))
                    S.write('out', t)
                    p = parser(S, 'out')
                    for end in (nc, None):
                        R.step()
                        with contextlib.redirect_stdout(io.StringIO()):
                            try:
                                back = p.transfer_2Darray(0, 1, nr - 1, end)
                                err = None
                            except Exception as e:
                                err = e
                        R.check(err is not None or back.size != nr * nc, '2d-short-row-silent', (t, end, None if err else repr(back)))
        R.trace()


# ------------------------------------------------------------------ parsing

TOKENS = ['7', '-3', '+4', '1.5', '-.25', '2.', '1e5', '-1E-3', '3.5D2', '2d-3', '+1.5e+3', '-2e4', 'abc', 'Inf', '-Inf', 'inf', '-inf', 'NaN', 'nan', 'NaNQ', '1.#QNAN', 'Info', 'x1',
          'a.b', '12ab', 'e5', '-', 'Infinity1', 'nanx', '-x']
PDELIMS = [None, ' ', '\t', ',', ', ', ';', ' =', '|', ':', '=', '\\', ']^']


def parse_case(case, R):
    delim = PDELIMS[case[1]]
    d = delim or ' \t'
    first = TOKENS[case[2]]
    deep = case[3]
    toks = [t for t in TOKENS if not set(t) & set(d)]
    if first not in toks:
        return
    with Scratch() as S:
        lines = [(first,)] + [(first, t) for t in toks] + ([(first, t, u) for t in toks for u in toks] if deep else [(first, t, u) for t in toks for u in toks[::7]])
        forms = [('', d[0], ''), (d[0], d[0] * 2, d[0]), ('', d[-1] + d[0], d[-1])]
        text, rows = '', []
        for ts in lines:
            for pre, sep, post in forms:
                text += pre + sep.join(ts) + post + '\n'
                rows.append(ts)
        S.write('out', text)
        p = parser(S, 'out', delim)
        for j, ts in enumerate(rows):
            R.step()
            line = text.split('\n')[j]
            for f, t in enumerate(ts):
                try:
                    got = p.transfer_var(j, f + 1)
                except Exception as err:
                    R.fail('parse-error', (d, line, t, repr(err)))
                    break
                want = number(t)
                if not R.check(agree(got, want) and sametype(got, want), 'parse', (d, line, t, repr(want), repr(got))):
                    break
            else:
                try:
                    p.transfer_var(j, len(ts) + 1)
                    R.fail('extra-field', (d, line))
                except IndexError:
                    pass
                R.check(p.transfer_line(j) == line.rstrip(), 'line', (line, p.transfer_line(j)))
            R.state((d, line))
        R.trace()


PTEXT = ['x A\nB 1\nA 2\nB 3\nA 4\nend\n', 'A 0\nA 1\nA 2\nB 3\nB 4\nx\n', 'x\ny\nB\nA\nz\n', 'A B\nA\nB\nx\n']


def anchor_case(case, R):
    text, depth = PTEXT[case[1]], case[2]
    ops = [('mark', a, o) for a in 'AB' for o in (1, 2, 3, -1, -2, -3)] + [('mark', 'x', 1), ('mark', 'nope', 1), ('mark', 'nope', -1), ('reset',)]
    with Scratch() as S:
        S.write('out', text)
        for seq in product(ops, repeat=depth):
            doc = Doc(text, ' ')
            p = parser(S, 'out')
            for op in seq:
                R.step()
                try:
                    apply_model(doc, op)
                    bad = None
                except Open:
                    break
                except RuntimeError as err:
                    bad = err
                try:
                    apply_real(p, op)
                    err = None
                except Exception as e:
                    err = e
                if not R.check((err is None) == (bad is None), 'anchor-' + ('found' if bad else 'missed'), (text, seq, op, repr(err))):
                    break
                R.check(err is None or isinstance(err, RuntimeError), 'anchor-error-type', (text, seq, repr(err)))
                n = len(doc.lines)
                for r in range(-doc.row, n - doc.row):
                    R.check(p.transfer_line(r) == doc.lines[doc.row + r], 'anchor-row' + ('-reverse' if op[-1] in (-1, -2, -3) else ''), (text, seq, op, r, p.transfer_line(r)))
                for r in (-doc.row - 1, n - doc.row):
                    for f in (lambda: p.transfer_line(r), lambda: p.transfer_var(r, 1)):
                        try:
                            v = f()
                            R.fail('read-outside-the-file', (text, seq, r, v))
                        except IndexError:
                            pass
            R.state((text, seq))
        R.trace()


def key_case(case, R):
    """transfer_keyvar against the lines that hold the key"""
    _, ti, start = case
    texts = ['K 1 2\nx 3\nK 4 5\nLOAD CASE 6 7\nK 8\ny\n', 'x 0\nK 1\nK 2\nK 3\nx 9\n', 'LOAD CASE 1\nK 2 a\nLOAD CASE 3\n', 'p 1\nq 2\nK 1.5e3 -2\n']
    text = texts[ti]
    lines = text.split('\n')[:-1]
    with Scratch() as S:
        S.write('out', text)
        for anchor in [None] + sorted(set(l.split()[0] for l in lines)):
            for key in ('K', 'LOAD CASE', 'x', 'q', 'none'):
                for occ in (1, 2, 3, -1, -2, -3):
                    for off in (-1, 0, 1):
                        for field in (0, 1, 2):
                            R.step()
                            doc = Doc(text, ' \t')
                            p = parser(S, 'out')
                            if anchor:
                                doc.mark(anchor, 1)
                                p.mark_anchor(anchor, 1)
                            rows = [i for i in range(doc.row, len(lines)) if key in lines[i]]
                            want = None
                            if len(rows) >= abs(occ):
                                j = rows[occ - 1 if occ > 0 else occ] + off
                                if 0 <= j < len(lines):
                                    fs = lines[j].replace(key, 'KeyField').split()
                                    if field < len(fs):
                                        want = number(fs[field])
                            try:
                                got = p.transfer_keyvar(key, field, occ, off)
                                err = None
                            except Exception as e:
                                got, err = None, e
                            rev = '-reverse' if occ < 0 else ''
                            if want is None:
                                R.check(err is not None, 'key-no-error' + rev, (text, anchor, key, field, occ, off, repr(got)))
                            else:
                                R.check(err is None and agree(got, want), 'key-value' + rev, (text, anchor, key, field, occ, off, repr(want), repr(got), repr(err)))
            R.state((text, anchor))
        R.trace()


def columns_case(case, R):
    """fixed columns, after any delimiters"""
    from openmdao.util.file_wrap import FileParser
    before = PDELIMS[case[1]]
    items = ['1.5', '-2', 'ab', 'a,b', "it's", '-1e-3', 'a b', '12ab', 'a=b', '3;', '1e5', 'C:\\x']
    with Scratch() as S:
        for a, b in product(items, repeat=2):
            R.step()
            line = 'nnn ' + a.ljust(6) + b.ljust(7) + '9.5\n'
            S.write('out', 'top\n' + line)
            p = FileParser()
            p.set_file(S.path('out'))
            if before is not None:
                p.set_delimiters(before)
            p.set_delimiters('columns')
            for (lo, hi), t in (((5, 4 + len(a)), a), ((11, 10 + len(b)), b), ((18, 20), '9.5'), ((18, None), '9.5')):
                want = number(t)
                try:
                    got = p.transfer_var(1, lo, hi)
                except Exception as err:
                    R.fail('columns-error', (before, line, lo, hi, repr(err)))
                    continue
                R.check(agree(got, want), 'columns-value' + ('-after-delimiters' if before else ''), (before, line, lo, hi, repr(want), repr(got)))
            R.state((before, a, b))
        # a padded number is a number
        for t in ('1.5', '-2', '1e5'):
            for w in (4, 6):
                S.write('out', 'ab' + t.rjust(w) + 'cd' + t.ljust(w) + '|\n')
                p = FileParser()
                p.set_file(S.path('out'))
                if before is not None:
                    p.set_delimiters(before)
                p.set_delimiters('columns')
                for lo in (3, 5 + w):
                    try:
                        R.check(agree(p.transfer_var(0, lo, lo + w - 1), number(t)), 'columns-padded' + ('-after-delimiters' if before else ''), (before, t, w, lo, repr(p.transfer_var(0, lo, lo + w - 1))))
                    except Exception as err:
                        R.fail('columns-error', (before, t, repr(err)))
                R.step()
        # boxes
        grid = [['1.5', '-2.0', '3.25'], ['4.0', '5.5', '-6.5'], ['7.0', '8.0', '9.0']]
        S.write('out', ''.join('row%d ' % i + ''.join(v.rjust(6) for v in r) + '\n' for i, r in enumerate(grid)))
        for r0, r1 in ((0, 0), (0, 2), (1, 2)):
            for c0, c1 in ((0, 2), (1, 1), (0, 1), (1, 2)):
                R.step()
                p = FileParser()
                p.set_file(S.path('out'))
                if before is not None:
                    p.set_delimiters(before)
                p.set_delimiters('columns')
                want = np.array([[float(grid[i][j]) for j in range(c0, c1 + 1)] for i in range(r0, r1 + 1)])
                lo, hi = 6 + 6 * c0, 5 + 6 * (c1 + 1)
                try:
                    got = p.transfer_array(r0, lo, r1, hi)
                    R.check(np.array_equal(got, want.ravel()), 'columns-array' + ('-after-delimiters' if before else ''), (before, r0, r1, c0, c1, repr(got)))
                    got = p.transfer_2Darray(r0, lo, r1, hi)
                    R.check(np.array_equal(got, want), 'columns-2d' + ('-after-delimiters' if before else ''), (before, r0, r1, c0, c1, repr(got)))
                except Exception as err:
                    R.fail('columns-box-error', (before, r0, r1, c0, c1, repr(err)))
        R.trace()


def comment_case(case, R):
    _, full, eol = case
    kinds = ['', 'a 1', '# x', 'b 2 # y', '! z', 'c 3 ! w', '#', '  d 4']
    with Scratch() as S:
        for ls in product(kinds, repeat=3):
            R.step()
            S.write('out', '\n'.join(ls) + '\n')
            kw = {}
            if full:
                kw['full_line_comment_char'] = full
            if eol:
                kw['end_of_line_comment_char'] = eol
            want = [l.split(eol)[0] if eol else l for l in ls if not (full and l[:1] == full)]
            try:
                p = parser(S, 'out', **kw)
            except Exception as err:
                R.fail('comment-error', (ls, kw, repr(err)))
                continue
            for i, l in enumerate(want):
                try:
                    got = p.transfer_line(i)
                except Exception as err:
                    R.fail('comment-row-missing', (ls, kw, i, repr(err)))
                    break
                if full and not eol and len(l.split()) > 1 and got == l.split()[0]:
                    R.fail('comment-only-first-word', (ls, kw, i, l, got))
                    continue
                R.check(got == l.rstrip(), 'comment-line', (ls, kw, i, l, got))
                for f, t in enumerate(l.split()):
                    try:
                        R.check(agree(p.transfer_var(i, f + 1), number(t)), 'comment-field', (ls, kw, i, f))
                    except Exception as err:
                        R.fail('comment-field-error', (ls, kw, i, f, repr(err)))
            else:
                try:
                    R.fail('comment-row-extra', (ls, kw, p.transfer_line(len(want))))
                except IndexError:
                    pass
            R.state((ls, full, eol))
        R.trace()


# ------------------------------------------------------------------ namelists

NMSTR = ['This', '', 'a b', "it's", '"', 'say "hi"', "'", "''", 'x!y', '! x', 'a/b', '/', '$END', '&END', 'a = 3', '1.5', '3,4', 'T', 'F', 'a,b', '%d', '%s %', 'C:\\x', '(1)', 'trailing ', ' lead', '1*3', 'x(1,1) = 3', '&G']
NMVALS = {'int': [0, 7, -3, 10 ** 12], 'float': FLOATS, 'bool': [True, False], 'str': NMSTR,
          'npscalar': [np.int64(4), np.int32(-4), np.float64(1.5), np.float32(.5), np.bool_(True), np.bool_(False), np.float64(-1e-20)],
          'list': [[1, 2], [1.5, -2.5, 3.], [True, False], [False, False, True], ['a', 'b'], ["it's", 'x!', ''], ['one', 'two', 'three'], [-1e-20, 1.], [1, 2.5], [NAN, 1.], [INF, -INF]],
          'array': [np.array([1, 2]), np.array([1.5, -2.5, 3.]), np.array([True, False]), np.array(['a', 'bc', "d'e"]), np.array([-1e-20, 2e30]), np.array([1., INF, NAN]),
                    np.array([1, 2], dtype=np.int32), np.array([.5, .25], dtype=np.float32), np.arange(12.) / 7.],
          'array2': [np.array([[1., 2.], [3., 4.5]]), np.array([[1, 2, 3], [4, 5, 6]]), np.array([[1.5, 2.5]]), np.array([[1.], [2.], [-3e-9]]), np.array([[True, False], [False, True]]),
                     np.array([['a', 'b'], ['c', "d'"]]), np.array([[7.]]), np.array([[NAN, INF], [1., 2.]])],
          'one': [[5], [2.5], ['a'], [True], np.array([2.5]), np.array([3]), np.array(['b'])]}


def nm_agree(got, want):
    if isinstance(want, (list, np.ndarray)):
        w = np.array(want, dtype=object) if isinstance(want, list) else want
        if w.ndim == 1 and w.size == 1 and not isinstance(got, (list, tuple, np.ndarray)):
            return agree(got, w[0], 1.01e-15)
        if not isinstance(got, (list, np.ndarray)):
            return False
        g = got if isinstance(got, np.ndarray) else np.array(got, dtype=object)
        return g.shape == w.shape and all(agree(a, b, 1.01e-15) if not (isinstance(b, (int, np.integer)) and not isinstance(b, (bool, np.bool_)) and not isinstance(a, (str, np.str_, bool, np.bool_))) else float(a) == float(b)
                                          for a, b in zip(g.flat, w.flat))
    return not isinstance(got, (list, np.ndarray)) and agree(got, want, 1.01e-15) and (isinstance(want, (bool, np.bool_, str)) or sametype(got, want))


class Stub(object):
    params = None
    _init_params_dict = {}


def nm_write(S, title, groups, dirty=None):
    """groups: list of (name, [(var, value) or comment text])"""
    from openmdao.util.namelist_util import Namelist
    nl = Namelist(Stub())
    nl.set_filename(S.path('nml'))
    nl.set_title(title)
    for name, cards in groups:
        nl.add_group(name)
        for c in cards:
            if isinstance(c, str):
                nl.add_comment(c)
            else:
                nl.add_newvar(*c)
    nl.generate()
    return nl


def nm_parse(S):
    from openmdao.util.namelist_util import Namelist
    nl = Namelist(Stub())
    nl.set_filename(S.path('nml'))
    nl.parse_file()
    return nl


def nm_check(R, S, title, groups, key, info):
    R.step()
    try:
        nm_write(S, title, groups)
    except Exception as err:
        R.fail('nml-write-error-' + key, (info, repr(err)))
        return
    text = S.read('nml')
    try:
        nl = nm_parse(S)
    except Exception as err:
        R.fail('nml-parse-error-' + key, (info, text, repr(err)))
        return
    R.check(nl.title == title, 'nml-title', (info, text, nl.title))
    if not R.check(nl.groups == [g[0] for g in groups], 'nml-groups-' + key, (info, text, nl.groups)):
        return
    for i, (name, cards) in enumerate(groups):
        want = [c for c in cards if not isinstance(c, str)]
        got = nl.cards[i]
        if not R.check([c.name for c in got] == [n.split(':')[-1] for n, v in want], 'nml-names-' + key, (info, text, [c.name for c in got])):
            continue
        for c, (n, v) in zip(got, want):
            R.check(nm_agree(c.value, v), 'nml-value-' + key, (info, text, n, repr(v), repr(c.value)))
    R.state((key, text))


def nml_case(case, R):
    kind = case[1]
    names = ['x', 'Xy1', 'long_name', 'v:sub:leaf', 'T', 'F1', 'e5']
    with Scratch() as S:
        for i, v in enumerate(NMVALS[kind]):
            for n in names if i < 2 else names[:1]:
                for g in ('G', 'my_group', 'T1'):
                    nm_check(R, S, 'Title', [(g, [(n, v)])], kind + ('-named' if n != 'x' or g != 'G' else ''), repr((g, n, v)))
        R.trace()


def nml2_case(case, R):
    """two cards in all orders of kinds"""
    a, b = case[1], case[2]
    with Scratch() as S:
        for u in NMVALS[a]:
            for v in NMVALS[b]:
                nm_check(R, S, 'Title', [('G', [('u', u), ('v', v)])], '%s-%s' % (a, b), repr((u, v)))
        R.trace()


def nml3_case(case, R):
    """group structures, comments, free text"""
    bodies = [[], [('a', 1)], [('a', 1.5), ('b', 'x y')], ['This is a comment', ('a', True)], ['! comment = 5', ('c', [1., 2.])], [('a', 2), 'Comment 5', ('b', 3)], ['note: a = 5'][:0] + [('a', np.array([[1., 2.], [3., 4.]])), ('z', 'q')],
              [('m', [1, 2]), '! 7, 8', ('k', 'w')], [('m', 'a'), 'plain text', ('k', 'w')]]
    with Scratch() as S:
        for title in ('Title', 'A title, with 3 = 4', ''):
            for i, j, k in product(range(len(bodies)), repeat=3):
                if case[1] != i:
                    continue
                gs = [(n if bodies[q] else 'FREE FORM %d' % q, bodies[q]) for n, q in (('OPT', i), ('G2', j), ('OPT', k))]
                if title == '' and not bodies[i]:
                    continue
                nm_check(R, S, title, gs, 'structure' + ('-comment' if any(isinstance(c, str) for g in gs for c in g[1]) else ''), repr((title, gs)))
        R.trace()


def nmltext_case(case, R):
    """documented forms of reading"""
    forms = [('&G x = 5\n/\n', [('x', 5)]), ('&G\n x = 5 /\n', [('x', 5)]), ('$G\n x = 5\n$END\n', [('x', 5)]), ('$G x = 5, y = 2.5\n$END\n', [('x', 5), ('y', 2.5)]),
             ('&G b = T, a = 3.5, 7.76, 1.23, $END\n', [('b', True), ('a', np.array([3.5, 7.76, 1.23]))]),
             ('&G\n x = 1, y = 2, z = \'s\'\n/\n', [('x', 1), ('y', 2), ('z', 's')]), ('&G\n x(3) = 4, 5\n/\n', [('x', np.array([0, 0, 4, 5]))]), ('&G\n x(1) = 15.0\n/\n', [('x', np.array([15.]))]),
             ('&G\n x = 2.5*3\n/\n', [('x', np.array([2.5] * 3))]), ('&G\n x = 4*2.5\n/\n', [('x', np.array([2.5] * 4))]), ('&G\n x = 1, 2\n 3\n 4, 5\n/\n', [('x', np.array([1, 2, 3, 4, 5]))]),
             ('&G\n x = 1\n 2\n/\n', [('x', np.array([1, 2]))]), ('&G\n x = -1e-20\n y = -1.5D12\n z = -2d3\n w = +3e5\n/\n', [('x', -1e-20), ('y', -1.5e12), ('z', -2000.), ('w', 3e5)]),
             ('&G\n b = .TRUE.\n c = .F.\n d = true\n e = False\n f = F\n/\n', [('b', True), ('c', False), ('d', True), ('e', False), ('f', False)]),
             ('&G\n s(2) = \'xyz\'\n/\n', [('s', ['', 'xyz'])]), ('&G\n\n x = 1\n\n ! no = 3\n y = "q"\n/\n', [('x', 1), ('y', 'q')]), ('&G\n x = 5,\n y = 6,\n/\n', [('x', 5), ('y', 6)]),
             ('&G\n a(1,1) = 12, 24, 36\n a(1,2) = 33, 66, 99\n/\n', [('a', np.array([[12, 24, 36], [33, 66, 99]]))]), ('&G\n x_1 = 5, y_2 = 6\n/\n', [('x_1', 5), ('y_2', 6)])]
    with Scratch() as S:
        for i in range(len(forms)):
            for j in range(len(forms)):
                for tail in ('', 'FREE\n'):
                    R.step()
                    text = 'Title\n \n' + forms[i][0] + forms[j][0].replace('G', 'H') + tail
                    S.write('nml', text)
                    try:
                        nl = nm_parse(S)
                    except Exception as err:
                        R.fail('nmltext-error', (text, repr(err)))
                        continue
                    R.check(nl.title == 'Title' and nl.groups == ['G', 'H'] + (['FREE'] if tail else []), 'nmltext-groups', (text, nl.title, nl.groups))
                    for k, f in ((0, i), (1, j)):
                        got = nl.cards[k] if k < len(nl.cards) else []
                        want = forms[f][1]
                        R.check([c.name for c in got] == [n for n, v in want] and all(nm_agree(c.value, v) for c, (n, v) in zip(got, want)), 'nmltext-value', (forms[f][0], [(c.name, repr(c.value)) for c in got]))
                        for n, v in want:
                            try:
                                R.check(nm_agree(nl.find_card(nl.groups[k], n), v), 'nmltext-find', (text, n))
                            except Exception as err:
                                R.fail('nmltext-find', (text, n, repr(err)))
                    R.state(text)
        R.trace()


def load_case(case, R):
    """values written from one component and loaded into another, before or after setup"""
    from openmdao.core.component import Component
    from openmdao.core.group import Group
    from openmdao.core.problem import Problem
    from openmdao.util.namelist_util import Namelist
    _, when_w, when_r, prefix = case
    pre = prefix and 'tree:' or ''
    base = [('i', 3, True), ('f', 1.5, False), ('b', False, True), ('s', 'This', True), ('a', np.zeros(3), False), ('a1', np.zeros(1), False), ('m', np.zeros((2, 2)), False), ('l', [], True), ('n_x', 2.5, False),
            ('sa', ['p', 'q'], True), ('ba', np.array([True, False]), True)]
    news = [('i', -44), ('f', -1e-20), ('b', True), ('s', "it's!"), ('a', np.array([1., -2.5, 3e-7])), ('a1', np.array([7.25])), ('m', np.array([[1., 2.], [3., 4.]])), ('l', [1, 2, 3]), ('n_x', 9.), ('sa', ['u', 'v', 'w']), ('ba', np.array([False, True]))]

    class C(Component):
        def __init__(self):
            super(C, self).__init__()
            for n, v, pbo in base:
                self.add_param(pre + n, v, pass_by_obj=pbo)

        def solve_nonlinear(self, params, unknowns, resids):
            pass

    def model(setup):
        p = Problem(root=Group())
        c = p.root.add('c', C())
        if setup:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                p.setup(check=False)
        return p, c

    with Scratch() as S:
        for mask in range(1, 1 << len(base)) if False else [1 << k for k in range(len(base))] + [(1 << a) | (1 << b) for a, b in combinations(range(len(base)), 2)] + [(1 << len(base)) - 1]:
            R.step()
            names = [base[k][0] for k in range(len(base)) if mask >> k & 1]
            want = dict(news)
            p, c = model(when_w)
            for n in names:
                if when_w:
                    c.params[pre + n] = want[n]
                else:
                    c._init_params_dict[pre + n]['val'] = want[n]
            nl = Namelist(c)
            nl.set_filename(S.path('nml'))
            nl.add_group('G')
            try:
                for n in names:
                    nl.add_var(pre + n)
                nl.generate()
            except Exception as err:
                R.fail('load-write-error', (case, names, repr(err)))
                continue
            p2, c2 = model(when_r == 1)
            n2 = Namelist(c2)
            n2.set_filename(S.path('nml'))
            try:
                n2.parse_file()
                empty, unlisted, unlinked = n2.load_model({'G': ['tree']} if pre else None)
            except Exception as err:
                R.fail('load-error-%d' % when_r, (case, names, S.read('nml'), repr(err)))
                continue
            R.check(not empty and not unlisted and not unlinked, 'load-report', (case, names, empty, unlisted, unlinked))
            if when_r == 2:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    p2.setup(check=False)
            for n, v, _ in base:
                try:
                    got = c2.params[pre + n] if when_r else c2._init_params_dict[pre + n]['val']
                except Exception as err:
                    got = err
                w = want[n] if n in names else v
                if isinstance(v, np.ndarray) and not isinstance(got, np.ndarray):
                    R.fail('load-not-array', (case, names, n, repr(got)))
                    continue
                R.check(nm_agree(got, w) if not (isinstance(w, list) and not w) else got == [] or len(got) == 0, 'load-value-%s' % n, (case, names, n, repr(w), repr(got)))
            R.state((case, mask))
        R.trace()


def mix_case(case, R):
    """a namelist read after parsers with any delimiters and vice versa"""
    with Scratch() as S:
        for d in PDELIMS:
            S.write('out', 'a 1.5\n')
            parser(S, 'out', d)
            nm_check(R, S, 'Title', [('G', [('x', 1.5), ('s', 'a b'), ('v', [1., 2., 3.]), ('b', True), ('w', np.array([[1., 2.], [3., 4.]]))])], 'after-parser', repr(d))
            R.step()
            S.write('out', 'k 1.5 2\n')
            p = parser(S, 'out')
            R.check(p.transfer_var(0, 3) == 2, 'parser-after-parser', repr(d))
            # two parsers at once
            for e in PDELIMS:
                R.step()
                S.write('o1', (d or ' ')[0].join(['k1', '2.5', 'z']) + '\n')
                S.write('o2', (e or ' ')[0].join(['q', '7', 'r']) + '\n')
                p1, p2 = parser(S, 'o1', d), parser(S, 'o2', e)
                try:
                    got = [p1.transfer_var(0, f) for f in (1, 2, 3)] + [p2.transfer_var(0, f) for f in (1, 2, 3)] + [p1.transfer_var(0, 2)]
                except Exception as err:
                    got = repr(err)
                R.check(got == ['k1', 2.5, 'z', 'q', 7, 'r', 2.5], 'two-parsers', (d, e, got))
            R.state(d)
        R.trace()


def cases(tier):
    q = tier == 'quick'
    out = []
    for d in range(len(DELIMS)):
        for k in range(len(KINDS)):
            out.append(['value', d, k])
    depth = 3
    for t in range(len(TEMPLATES)):
        for o in range(len(gen_ops())):
            out.append(['ops', t, depth if q else 4 if t < 3 else 3, o])
    for n in (1, 2, 3):
        for start in (1, 2, 3, 4):
            for sep in (0, 1, 2):
                out.append(['array', n, start, sep])
    for nr in (1, 2, 3):
        for nc in (1, 2, 3):
            out.append(['array2', nr, nc])
    for d in range(len(PDELIMS)):
        for t in range(len(TOKENS)):
            out.append(['parse', d, t, 0 if q else 1])
    for t in range(len(PTEXT)):
        out.append(['anchor', t, 2 if q else 3])
    for t in range(4):
        out.append(['key', t, 0])
    for d in range(len(PDELIMS)):
        out.append(['columns', d])
    for full in (None, '#', '!'):
        for eol in (None, '#', '!'):
            out.append(['comment', full, eol])
    for k in sorted(NMVALS):
        out.append(['nml', k])
        for j in sorted(NMVALS):
            out.append(['nml2', k, j])
    for i in range(9):
        out.append(['nml3', i])
    out.append(['nmltext'])
    for w in (0, 1):
        for r in (0, 1, 2):
            for pre in (0, 1):
                out.append(['load', w, r, pre])
    out.append(['mix'])
    return out


def run(case, R):
    {'value': values_case, 'ops': ops_case, 'array': array_case, 'array2': array2_case, 'parse': parse_case, 'anchor': anchor_case, 'key': key_case, 'columns': columns_case,
     'comment': comment_case, 'nml': nml_case, 'nml2': nml2_case, 'nml3': nml3_case, 'nmltext': nmltext_case, 'load': load_case, 'mix': mix_case}[case[0]](case, R)
