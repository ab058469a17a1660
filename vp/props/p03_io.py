"""C07 text files, C08 binary serialisation."""
import io
import math
import os
import shutil
import struct
import tempfile

import numpy as np
from hypothesis import strategies as st

from wai.ma.core import Serialisable
from wai.ma.core.matrix import factory, helper
from wai.ma.transformation import Log, SavitzkyGolay, SavitzkyGolay2, Standardize
from wai.ma.algorithm.pls import SIMPLS

from .. import gens
from ..engine import fail, oracle, require, sub
from ..ref import arr, close, mx, same, short, ordered


def M(a):
    return factory.create(ordered(a))


class Scratch:
    """A directory of our own that becomes the working directory, removed afterwards."""
    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix='vp-io-')
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)


def cells():
    return st.one_of(gens.values(), st.floats(allow_nan=False, allow_infinity=False), st.floats(-1, 1),
                     st.sampled_from([5e-324, 1.7976931348623157e308, -0.0, 1e22, 123456789.125, 0.1 + 0.2]))


SEPS = [',', ';', '\t', '|', ' ', '::']


@st.composite
def csv_cases(draw):
    special = draw(st.integers(0, 3)) == 0
    el = st.one_of(cells(), st.sampled_from([float('nan'), float('inf'), float('-inf')])) if special else cells()
    return dict(m=draw(st.lists(st.lists(el, min_size=1, max_size=1), min_size=1, max_size=1)) if draw(st.integers(0, 9)) == 0
                else draw(gens.explicit((1, 6), (1, 6), el))['m'],
                header=draw(st.booleans()), sep=draw(st.sampled_from(SEPS)), handle=draw(st.booleans()), old=draw(st.sampled_from([0, 0, 2, 3, 9])),
                mode=draw(st.sampled_from(['full', 'full', 'sci', 'fixed'])), dec=draw(st.integers(0, 10)))


def write_read(a, case, num_dec, scientific):
    if case['handle']:
        f = io.StringIO()
        helper.write(M(a), f, case['header'], case['sep'], num_dec, scientific)
        text = f.getvalue()
        back = helper.read(io.StringIO(text), case['header'], case['sep'])
    else:
        with Scratch():
            if case.get('old'):     # an earlier file of that name is replaced
                helper.write(M(np.ones((a.shape[0] + case['old'] - 2, a.shape[1] + 1))), 'm.csv', False, ';', 3)
            helper.write(M(a), 'm.csv', case['header'], case['sep'], num_dec, scientific)
            with open('m.csv') as f:
                text = f.read()
            back = helper.read('m.csv', case['header'], case['sep'])
    return text, back


@sub('C07', 'round-trip', csv_cases, quick=3000)
def c07(case, ctx):
    """Writing a matrix and reading it back restores it exactly (full precision) or to the printed decimals."""
    round_trip(np.array(case['m'], dtype=float), case, ctx)


def round_trip(a, case, ctx):
    if case['mode'] == 'full':
        num_dec, sci = -1, False
    elif case['mode'] == 'sci':
        num_dec, sci = 17, True
    else:
        num_dec, sci = case['dec'], False
    text, back = write_read(a, case, num_dec, sci)
    ctx.label(case['mode'], 'header' if case['header'] else 'no header', 'handle' if case['handle'] else 'file')
    lines = text.split('\n')
    require(lines[-1] == '' and len(lines) == a.shape[0] + case['header'] + 1, 'number of lines: %r', text)
    if case['header']:
        require(lines[0].split(case['sep']) == ['col%d' % (j + 1) for j in range(a.shape[1])], 'header %r', lines[0])
    require(helper.to_lines(M(a), case['header'], case['sep'], num_dec, sci) == lines[:-1], 'to_lines differs from the file')
    if not sci:
        require(helper.to_string(M(a), case['header'], case['sep'], num_dec) == '\n'.join(lines[:-1]), 'to_string differs from the file')
    b = arr(back, 'read', a.shape, finite=False)
    if case['mode'] != 'fixed':
        same(b, a, 'read after write of %s as\n%s' % (short(a), text))
        require((np.signbit(b) == np.signbit(a))[~np.isnan(a)].all(), 'signs of zeros')
        return
    fin = np.isfinite(a)
    same(b[~fin], a[~fin], 'special values after writing %r' % text)
    err = np.abs(b[fin] - a[fin])
    require((err <= 0.5 * 10.0 ** -case['dec'] * (1 + 1e-9) + 2e-16 * np.abs(a[fin])).all(),
            'decimals=%d: wrote %s as\n%s', case['dec'], short(a), text)
    for ln in lines[case['header']:-1]:
        for cell in ln.split(case['sep']):
            if cell.strip('-').replace('.', '').isdigit():
                require(len(cell.partition('.')[2]) == case['dec'], 'decimals=%d but wrote %r', case['dec'], cell)


@st.composite
def large_cases(draw):
    return dict(a=draw(gens.recipe(*draw(st.sampled_from([((1, 12), (1, 12)), ((1, 3), (200, 1200)), ((200, 1200), (1, 3)), ((30, 70), (30, 70))])),
                                   ('gauss', 'int', 'sparse', 'big'), (-2, 2))), spread=draw(st.sampled_from([0, 0, 2, 20, 150])),
                header=draw(st.booleans()), sep=draw(st.sampled_from(SEPS)), handle=draw(st.booleans()), old=0,
                mode=draw(st.sampled_from(['full', 'full', 'sci', 'fixed'])), dec=draw(st.integers(0, 10)), special=draw(st.booleans()))


@sub('C07', 'large', large_cases, quick=250)
def c07_large(case, ctx):
    """The same for matrices of up to some thousand elements of widely different magnitudes."""
    a = gens.expand(case['a'])
    rng = np.random.Generator(np.random.PCG64(case['a']['seed'] + 17))
    a = a * 10.0 ** rng.integers(-case['spread'], case['spread'] + 1, a.shape)
    if case['special']:
        a.flat[rng.integers(0, a.size, 4)] = [np.nan, np.inf, -np.inf, -0.0]
    if case['mode'] == 'fixed':
        a = np.where(np.abs(a) > 1e6, np.sign(a), a)
    round_trip(a, case, ctx)
    if a.size < 100:
        ctx.trivial('small')


@st.composite
def bad_cases(draw):
    return dict(m=draw(gens.explicit((1, 5), (1, 5)))['m'], bad=draw(st.integers(0, 24)), text=draw(st.sampled_from(['', 'abc', '1,5', '?', '--1'])),
                header=draw(st.booleans()), cut=draw(st.integers(0, 5)), extra=draw(st.booleans()), crlf=draw(st.booleans()),
                pad=draw(st.booleans()), sep=draw(st.sampled_from([';', '\t', '|', '::', ',', ' '])), corner=draw(st.booleans()),
                form=draw(st.sampled_from([0, 0, 1, 2, 3, 4])))


@sub('C07', 'damaged', bad_cases, quick=700)
def c07_bad(case, ctx):
    """An unreadable cell or a short/long line does not affect the other cells; line endings and padding do not matter."""
    a = np.array(case['m'], dtype=float)
    n, m = a.shape
    forms = (repr, lambda x: '%.17e' % x, lambda x: '+' + repr(x) if x >= 0 else repr(x), lambda x: '%.17G' % x,
             lambda x: '%d' % x if x == int(x) else repr(x))
    form = forms[case['form']]
    rows = [[form(float(x)) for x in r] for r in a]
    sep = case['sep']
    if case['pad'] and sep != ' ':
        rows = [[' ' + x + ' ' for x in r] for r in rows]
    i, j = (case['bad'] % (n * m)) // m, (case['bad'] % (n * m)) % m
    if case['corner']:      # an empty cell at either end of a line
        j = 0 if j % 2 else m - 1
        case = dict(case, text='')
    elif sep in case['text']:
        case = dict(case, text='?')
    ok = np.ones((n, m), dtype=bool)
    rows[i][j] = case['text']
    ok[i, j] = False
    k = case['cut'] % n
    if k > 0 and m > 1:       # the first line decides the number of columns
        if case['extra']:
            rows[k] = rows[k] + ['77']
        else:
            rows[k] = rows[k][:-1]
            ok[k, -1] = False
    eol = '\r\n' if case['crlf'] else '\n'
    text = eol.join([sep.join(r) for r in ([['h%d' % x for x in range(m)]] if case['header'] else []) + rows]) + eol
    with Scratch():
        with open('x.csv', 'w', newline='') as f:
            f.write(text)
        b = arr(helper.read('x.csv', case['header'], sep), 'read', (n, m), finite=False)
    same(b[ok], a[ok], 'readable cells of %r' % text)


@st.composite
def empty_cases(draw):
    return dict(header=draw(st.booleans()), lines=draw(st.integers(0, 1)), handle=draw(st.booleans()))


@sub('C07', 'empty', empty_cases, quick=30, thorough=30)
def c07_empty(case, ctx):
    """A file without data rows is reported as a RuntimeError."""
    text = 'a,b\n' * case['lines']
    if case['lines'] and not case['header']:
        return ctx.trivial('has a data row')
    with Scratch():
        with open('e.csv', 'w') as f:
            f.write(text)
        try:
            r = helper.read(io.StringIO(text) if case['handle'] else 'e.csv', case['header'], ',')
        except RuntimeError:
            return
        fail('no error for a file without data rows: %r', r.data)


# --------------------------------------------------------------------------- C08
@oracle
def ref_matrix(a):
    return struct.pack('<ii', *a.shape) + b''.join(struct.pack('<d', float(x)) for r in a for x in r)


def state(obj):
    s = io.BytesIO()
    obj.serialise_state(s)
    return s.getvalue()


def accessors(obj, want, ctx, what):
    """Every way to obtain the state of an object yields the same bytes."""
    require(state(obj) == want, '%s: state\n got  %s\n want %s', what, state(obj).hex()[:400], want.hex()[:400])
    got = obj.get_serialised_state()
    require(isinstance(got, bytes), 'get_serialised_state returns %r', type(got))
    if got != want:
        if got == b'':
            ctx.finding('serialised-state-empty')
        else:
            fail('%s: get_serialised_state\n got  %s\n want %s', what, got.hex()[:400], want.hex()[:400])
    with Scratch():
        for path in ('plain.bin', os.path.join('a', 'b', 'deep.bin'), os.path.join('a', 'again.bin')):
            obj.save_state(path)
            with open(path, 'rb') as f:
                d = f.read()
            require(d == want, '%s: save_state(%r)\n got  %s\n want %s', what, path, d.hex()[:400], want.hex()[:400])
        obj.save_state('plain.bin')     # overwrites, does not append
        require(os.path.getsize('plain.bin') == len(want), 'save_state appends')
        for junk in (b'\xa5' * (len(want) + 57), want[:-3] + b'\x00' * 40, want[:len(want) // 2]):     # whatever was there before
            with open('plain.bin', 'wb') as f:
                f.write(junk)
            obj.save_state('plain.bin')
            with open('plain.bin', 'rb') as f:
                d = f.read()
            require(d == want, '%s: save_state over a file of %d bytes\n got  %s\n want %s', what, len(junk), d.hex()[:400], want.hex()[:400])
    require(state(obj) == want, '%s: state changes by saving it', what)


@st.composite
def ser_cases(draw):
    if draw(st.integers(0, 9)) == 0:
        return dict(a=draw(gens.recipe((1, 300), (1, 30), ('gauss', 'big'), None)))
    return dict(a=draw(gens.explicit((1, 6), (1, 6), st.one_of(cells(), st.sampled_from([float('inf'), float('nan')])))))


@sub('C08', 'matrix', ser_cases, quick=1800)
def c08_matrix(case, ctx):
    """The bytes of a matrix decode to its shape and its elements, row by row, bit for bit."""
    a = gens.expand(case['a'])
    accessors(M(a), ref_matrix(a), ctx, 'matrix')


@st.composite
def prim_cases(draw):
    return dict(i=draw(st.one_of(st.integers(-2 ** 31, 2 ** 31 - 1), st.integers(-300, 300), st.sampled_from([2 ** 31 - 1, -2 ** 31]))),
                big=draw(st.one_of(st.integers(-2 ** 200, 2 ** 200), st.integers(-70000, 70000),
                                   st.integers(0, 90).map(lambda k: 2 ** k), st.integers(0, 90).map(lambda k: -2 ** k),
                                   st.integers(0, 90).map(lambda k: 2 ** k - 1))),
                f=draw(st.one_of(cells(), st.sampled_from([float('inf'), float('-inf')]))), s=draw(st.text(max_size=12)),
                over=draw(st.sampled_from([2 ** 31, -2 ** 31 - 1, 2 ** 40])), wrap=draw(st.booleans()))


@sub('C08', 'primitives', prim_cases, quick=3600)
def c08_prim(case, ctx):
    """Integers, big integers, floats and strings decode to the value that was written; anything else is rejected."""
    i, b = case['i'], case['big']
    require(Serialisable.serialise_to_bytes(i) == struct.pack('<i', i), 'int %r: %r', i, Serialisable.serialise_to_bytes(i))
    f = np.float64(case['f']) if case['wrap'] else case['f']
    require(Serialisable.serialise_to_bytes(f) == struct.pack('<d', case['f']), 'float %r: %r', f, Serialisable.serialise_to_bytes(f))
    try:
        raw = case['s'].encode('utf-8')
    except UnicodeEncodeError:
        raw = None
    if raw is not None:
        got = Serialisable.serialise_to_bytes(case['s'])
        require(got == struct.pack('<i', len(raw)) + raw, 'string %r: %r', case['s'], got)
    got = Serialisable.serialise_big_int(b)
    require(len(got) >= 5, 'big int %r: %r', b, got)
    n = struct.unpack('<i', got[:4])[0]
    require(n == len(got) - 4 and int.from_bytes(got[4:], 'little', signed=True) == b, 'big int %d is written as %s', b, got.hex())
    require(n <= b.bit_length() // 8 + 1, 'big int %d is padded: %s', b, got.hex())
    for bad in (case['over'], None, [1], (1.0,), 1j, b'x'):
        try:
            r = Serialisable.serialise_to_bytes(bad)
        except Exception:
            continue
        fail('serialise_to_bytes(%r) is not rejected: %r', bad, r)


@st.composite
def model_cases(draw):
    n, m = draw(gens.dim(4, 9, 60)), draw(gens.dim(2, 9, 40))
    return dict(components=draw(st.integers(1, m)), limit=draw(st.sampled_from([0, -1, 1, 2, 5])), kind=draw(st.sampled_from(['standardize', 'log', 'sg', 'sg2', 'simpls'])), a=draw(gens.recipe(n, m, kinds=('gauss', 'pos', 'const', 'big'))),
                y=draw(gens.recipe(n, 1, kinds=('gauss',))), base=draw(st.sampled_from([2, 10, 2.5, 0.5, math.e])),
                offset=draw(st.sampled_from([1, 0.5, 3, 0])), left=draw(st.integers(0, 4)), right=draw(st.integers(0, 4)),
                poly=draw(st.integers(2, 3)), der=draw(st.integers(0, 2)))


@sub('C08', 'models', model_cases, quick=1800)
def c08_models(case, ctx):
    """The saved state of a fitted transformation or model decodes to its parameters; an unfitted one is rejected."""
    a, y = gens.expand(case['a']), gens.expand(case['y'])
    kind = case['kind']
    ctx.label(kind)
    if kind == 'log':
        t = Log()
        t.base, t.offset = case['base'], case['offset']
        got = state(t)
        require(len(got) == 24, 'Log state has %d bytes', len(got))
        b, f, o = struct.unpack('<ddd', got)
        require(b == case['base'] and o == case['offset'] and abs(f * math.log(case['base']) - 1) < 1e-12, 'Log state %r', (b, f, o))
        return accessors(t, got, ctx, 'Log')
    if kind == 'simpls':
        t = SIMPLS()
        t.num_components, t.num_coefficients = case['components'], case['limit']
        fit = lambda: require(t.initialize(M(a), M(y)) is None, 'SIMPLS does not train')
        want = lambda: ref_matrix(arr(t.get_matrix('W'), 'W', (a.shape[1], case['components']), finite=False))
        if mx(a.T @ y) < 1e-9:
            return ctx.trivial('no covariance')
    elif kind == 'standardize':
        t = Standardize()
        fit = lambda: t.transform(M(a))
        def want():
            sd = arr(t.get_std_devs(), 'std')
            mean = arr(t.get_means(), 'means')
            close(mean, a.mean(0, keepdims=True), 'means', 1e-10, mx(a))
            ref = a.std(0, ddof=1, keepdims=True)
            close(sd, np.where(ref <= 1e-12 * np.abs(a).max(0, keepdims=True), 1.0, ref), 'deviations', 1e-7, max(1.0, mx(a)))
            return ref_matrix(mean) + ref_matrix(sd)
    else:
        if kind == 'sg':
            t = SavitzkyGolay()
            t.num_points_left, t.num_points_right = case['left'], case['right']
            k = case['left'] + case['right'] + 1
        else:
            t = SavitzkyGolay2()
            t.num_points = case['left']
            k = 2 * case['left'] + 1
        t.polynomial_order, t.derivative_order = case['poly'], case['der']
        if k < case['poly'] + 1:
            return ctx.trivial('window smaller than the polynomial')
        fit = lambda: t.transform(M(np.tile(a, (1, 10))))
        want = lambda: ref_matrix(arr(t.coefficients, 'coefficients', (1, k)))
    try:
        r = state(t)
    except RuntimeError:
        pass
    else:
        fail('state of an unfitted %s is not rejected: %r', kind, r)
    try:
        fit()
    except np.linalg.LinAlgError:
        require(kind == 'simpls' and case['components'] > 1, '%s can not be fitted', kind)
        return ctx.trivial('more components than the data have')
    accessors(t, want(), ctx, kind)
    # a changed parameter makes it unfitted again
    if kind == 'simpls':
        t.num_components = case['components'] % 3 + 1
    elif kind in ('sg', 'sg2'):
        t.polynomial_order = 2 if case['poly'] == 3 else 3
    else:
        t.reset()
    try:
        r = state(t)
    except RuntimeError:
        return
    fail('state of a %s that was reset is not rejected: %r', kind, r)
