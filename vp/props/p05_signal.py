"""C13 Savitzky-Golay, C14 Fourier transform, C15 scatter correction, C16 filters, C17 kernels."""
import math

import numpy as np
from hypothesis import strategies as st

from wai.ma.core import Filter, MultiFilter
from wai.ma.core.matrix import factory
from wai.ma.filter import Downsample, Equidistance
from wai.ma import transformation as T
from wai.ma.transformation import kernel as K

from .. import gens
from ..engine import fail, oracle, require, sub
from ..ref import arr, close, mx, same, ordered


def M(a):
    return factory.create(ordered(a))


SPECTRA = ('gauss', 'int', 'spec', 'pos', 'sparse', 'big', 'const')


# ----------------------------------------------------------------------------------------- C13
@st.composite
def sg_cases(draw):
    two = draw(st.booleans())
    poly = draw(st.sampled_from([2, 2, 3, 3, 4, 4, 5, 6, 7, 8]))
    left = draw(gens.dim(0, 6, 24))
    right = left if two else draw(gens.dim(0, 6, 24))
    der = draw(st.integers(0, poly))
    extra = draw(gens.dim(0, 8, 30))
    return dict(two=two, poly=poly, left=left, right=right, der=der,
                x=draw(gens.recipe((1, 5), left + right + 1 + extra, SPECTRA, (-1, 1))),
                coef=draw(st.lists(st.integers(-3, 3), min_size=poly + 1, max_size=poly + 1)))


@oracle
def sg_weights(left, right, poly, der):
    """Weights of the window whose dot product is the der-th coefficient of the least-squares polynomial."""
    k = np.arange(-left, right + 1, dtype=float)
    h = max(1.0, np.abs(k).max())
    V = np.vander(k / h, poly + 1, increasing=True)
    return np.linalg.pinv(V)[der] / h ** der, np.linalg.cond(V)


def sg_make(case):
    t = T.SavitzkyGolay2() if case['two'] else T.SavitzkyGolay()
    t.polynomial_order, t.derivative_order = case['poly'], case['der']
    if case['two']:
        t.num_points = case['left']
    else:
        t.num_points_left, t.num_points_right = case['left'], case['right']
    return t


@sub('C13', 'window-fit', lambda: sg_cases(), 3600)
def window_fit(case, ctx):
    """Every output value is the coefficient of the requested order of the least-squares polynomial through its window."""
    l, r, p, d = case['left'], case['right'], case['poly'], case['der']
    x = gens.expand(case['x'])
    w = l + r + 1
    if w == 1:
        if d:
            return ctx.trivial('derivative of a single point')
        same(arr(sg_make(case).transform(M(x)), 'one-point window'), x, 'one-point window')
        return
    if w <= p:
        return ctx.trivial('window does not determine the polynomial')
    wts, c = sg_weights(l, r, p, d)
    ctx.label('symmetric' if l == r else 'asymmetric', 'derivative %d' % d)
    want = np.array([[wts @ row[i:i + w] for i in range(x.shape[1] - w + 1)] for row in x])
    got = arr(sg_make(case).transform(M(x)), 'Savitzky-Golay', want.shape)
    # the normal equations lose the square of the condition
    tol = 1e-12 + 1e-15 * c ** 2
    if tol > 1e-4:
        return ctx.trivial('ill-conditioned window')
    close(got, want, 'Savitzky-Golay', tol, mx(x) * np.abs(wts).sum())


@sub('C13', 'polynomials', lambda: sg_cases(), 1800)
def polynomials(case, ctx):
    """A polynomial of at most the fitted order is reproduced (order 0) or differentiated exactly (its scaled derivative)."""
    l, r, p, d = case['left'], case['right'], case['poly'], case['der']
    w = l + r + 1
    if w <= p or w == 1:
        return ctx.trivial('window does not determine the polynomial')
    n = case['x']['c']
    pos = np.arange(n, dtype=float)
    cs = [float(v) / 2 ** k for k, v in enumerate(case['coef'])]
    x = sum(c * pos ** k for k, c in enumerate(cs))[None, :]
    centre = pos[l:n - r]
    want = sum(c * math.comb(k, d) * centre ** (k - d) for k, c in enumerate(cs) if k >= d) * np.ones_like(centre)
    got = arr(sg_make(case).transform(M(x)), 'Savitzky-Golay', (1, n - w + 1))
    wts, c = sg_weights(l, r, p, d)
    tol = 1e-12 + 1e-15 * c ** 2
    if tol > 1e-4:
        return ctx.trivial('ill-conditioned window')
    close(got[0], want, 'polynomial of degree %d, order %d' % (p, d), tol, mx(x) * np.abs(wts).sum() + mx(want) + 1e-9)
    if not any(case['coef'][1:]):
        ctx.trivial('constant signal')


# ----------------------------------------------------------------------------------------- C14
@st.composite
def fft_cases(draw):
    return dict(x=draw(gens.recipe((1, 5), (1, 12), SPECTRA, draw(st.sampled_from([(-1, 1), (-1, 1), (-9, -7), (6, 6)])))), ortho=draw(st.booleans()),
                enum=draw(st.booleans()))


def fft_make(mode, case):
    t = T.FFT()
    t.orthonormalisation = case['ortho']
    t.output_mode = T.FFT.OutputMode(mode) if hasattr(T.FFT, 'OutputMode') else mode
    return t


@oracle
def dft(x, ortho):
    """Frequencies 0 .. n//2 of every row by the defining sum."""
    n = x.shape[1]
    k = np.arange(n // 2 + 1)[:, None]
    j = np.arange(n)[None, :]
    ang = 2 * np.pi * ((k * j) % n) / n
    c = x @ np.cos(ang).T - 1j * (x @ np.sin(ang).T)
    return c / math.sqrt(n) if ortho else c


def rotate(want, rows):
    """The recorded finding: the rows of the output come out rotated by half their number."""
    return np.roll(want, rows // 2, axis=0)


def match(got, want, what, ctx, tol, scale):
    """want itself, or (recorded finding) its rows rotated by half their number."""
    rot = rotate(want, want.shape[0])
    if want.shape[0] > 1 and got.shape == want.shape and np.max(np.abs(got - rot)) <= tol * scale:
        if np.max(np.abs(got - want)) > tol * scale:
            ctx.finding('fft-rows-rotated')
        return
    close(got, want, what, tol, scale)


@sub('C14', 'spectrum', lambda: fft_cases(), 3200)
def spectrum(case, ctx):
    """Every output mode reports the discrete Fourier transform of each row, in its layout."""
    x = gens.expand(case['x'])
    n = x.shape[1]
    F = dft(x, case['ortho'])
    nyq = n % 2 == 0
    s = max(mx(x) * n, 1e-12)
    re = np.real(F).copy()
    im = np.imag(F).copy()
    im[:, 0] = 0
    if nyq and n > 1:
        im[:, -1] = 0
    cols = [re[:, 0]]
    for k in range(1, F.shape[1]):
        cols.append(re[:, k])
        if not (nyq and k == F.shape[1] - 1):
            cols.append(im[:, k])
    pairs = np.array(cols).T
    if n == 1:
        re, im, pairs = re[:, :1], im[:, :1], pairs[:, :1]
    ctx.label('even' if nyq else 'odd', 'ortho' if case['ortho'] else 'plain', 'rows>1' if len(x) > 1 else 'one row')
    match(arr(fft_make(3, case).transform(M(x)), 'pairs', pairs.shape), pairs, 'real/imaginary pairs', ctx, 1e-11, s)
    match(arr(fft_make(1, case).transform(M(x)), 'real', re.shape), re, 'real components', ctx, 1e-11, s)
    match(arr(fft_make(2, case).transform(M(x)), 'imaginary', im.shape), im, 'imaginary components', ctx, 1e-11, s)
    amp = np.sqrt(re ** 2 + im ** 2)
    match(arr(fft_make(4, case).transform(M(x)), 'amplitude', amp.shape), amp, 'amplitudes', ctx, 1e-11, s)
    # angles are compared through the phasor they stand for, weighted by the amplitude
    ang = arr(fft_make(8, case).transform(M(x)), 'angle', amp.shape)
    require(np.all(np.abs(ang) <= np.pi + 1e-12), 'phase angle outside [-pi, pi]')
    for f, w, what in ((np.cos, re, 'cos'), (np.sin, im, 'sin')):
        a = rotate(amp, len(x)) * f(ang)
        if not (len(x) > 1 and np.max(np.abs(a - rotate(w, len(x)))) <= 1e-10 * s):
            close(amp * f(ang), w, 'phase angles (%s)' % what, 1e-10, s)
    ap = arr(fft_make(12, case).transform(M(x)), 'amplitude/angle pairs', pairs.shape)
    rec = [ap[:, 0]]
    for i in range(2, ap.shape[1], 2):
        rec += [ap[:, i - 1] * np.cos(ap[:, i]), ap[:, i - 1] * np.sin(ap[:, i])]
        require(np.all(ap[:, i - 1] >= 0), 'negative amplitude')
    if ap.shape[1] % 2 == 0:
        rec.append(ap[:, -1])
    match(np.array(rec).T, pairs, 'amplitude/angle pairs', ctx, 1e-10, s)


@sub('C14', 'inverse', lambda: fft_cases(), 2800)
def fft_inverse(case, ctx):
    """The pair modes can be inverted exactly; the total energy is preserved (Parseval); other modes refuse."""
    x = gens.expand(case['x'])
    n = x.shape[1]
    s = max(mx(x), 1e-12)
    for mode in (3, 12):
        t = fft_make(mode, case)
        g = t.transform(M(x))
        b = arr(t.inverse_transform(g), 'inverse of mode %d' % mode, x.shape)
        close(b, x, 'inverse of mode %d' % mode, 1e-10 * n, s)
        t2 = fft_make(mode, case)
        close(arr(t2.inverse_transform(M(g.data)), 'fresh inverse', x.shape), x, 'inverse by another instance', 1e-10 * n, s)
    g = arr(fft_make(3, case).transform(M(x)), 'pairs', x.shape)
    w = np.full(n, 2.0)
    w[0] = 1.0
    if n % 2 == 0:
        w[-1] = 1.0
    e = (g ** 2 @ w).sum() / (1 if case['ortho'] else n)
    require(abs(e - (x ** 2).sum()) <= 1e-10 * n * max((x ** 2).sum(), 1e-12), 'energy %r of the signal becomes %r', (x ** 2).sum(), e)
    for mode in (1, 2, 4, 8):
        try:
            fft_make(mode, case).inverse_transform(M(x))
            fail('inverse of output mode %d did not fail', mode)
        except ValueError:
            pass


# ----------------------------------------------------------------------------------------- C15
@st.composite
def msc_cases(draw):
    n = draw(gens.dim(6, 20, 60, gens.HUGE))
    k = draw(gens.dim(2, 5, 12))
    ranges, at = [], 0
    for _ in range(draw(st.sampled_from([1, 1, 2, 3, 0, 5]))):
        a = at + draw(st.integers(0, 4))
        b = a + draw(gens.dim(1, 8, 30))
        if b < n:
            ranges.append([a, b])
            at = b + 1
    gap = draw(st.sampled_from([0.0, 0.25]))
    return dict(n=n, spectra=draw(gens.recipe(n, k, ('gauss', 'pos', 'spec'), (-1, 1))), ranges=ranges, gap=gap,
                start=draw(st.sampled_from([0.0, 400.0, -3.0])), step=draw(st.sampled_from([1.0, 2.5, 0.5])),
                affine=draw(st.booleans()), a=draw(st.sampled_from([0.5, 2.0, -1.5, 3.0])),
                b=draw(st.sampled_from([0.0, 1.0, -4.0])), shift=draw(st.sampled_from([0.0, 0.0, 0.1, -0.2, 0.4, -0.6])), which=draw(st.integers(0, k - 1)), prefilter=draw(st.sampled_from(['none', 'none', 'none', 'smooth', 'gain'])),
                extra=draw(st.sampled_from([0, 0, 0, 1, 2])))


class AmplitudeFilter(T.AbstractTransformation):
    """A filter for (wave number, amplitude) spectra which leaves the wave numbers alone."""
    def __init__(self, how):
        super().__init__()
        self.how = how

    def configure(self, data):
        self.configured = True

    def do_transform(self, data):
        d = np.array(data.data, dtype=float)
        d[:, 1] = filtered_amplitudes(d[:, 1], self.how)
        return M(d)

    def do_inverse_transform(self, data):
        raise NotImplementedError()


def filtered_amplitudes(a, how):
    if how == 'smooth':
        p = np.concatenate([a[:1], a, a[-1:]])
        return (p[:-2] + p[1:-1] + p[2:]) / 3
    return 1.5 * a + 0.25 if how == 'gain' else a


@oracle
def regression(x, y):
    A = np.column_stack([np.ones_like(x), x])
    return np.linalg.lstsq(A, y, rcond=None)[0]


@sub('C15', 'correction', lambda: msc_cases(), 3200)
def correction(case, ctx):
    """Inside each range the spectrum is replaced by (amplitude - intercept)/slope of its regression on the average
    spectrum; everything else, including the wave numbers and points outside the ranges, stays as it was."""
    amp = gens.expand(case['spectra'])
    wave = case['start'] + case['step'] * np.arange(case['n'])
    avg = amp.mean(1)
    spectrum = (case['a'] * avg + case['b']) if case['affine'] else amp[:, case['which']]
    t = T.MultiplicativeScatterCorrection()
    t.correction.ranges = [(wave[a] - case['gap'] * case['step'], wave[b] + case['gap'] * case['step'])
                           for a, b in case['ranges']]
    # the wave numbers of the spectrum itself decide what is inside a range
    own = wave + case['shift'] * case['step']
    # what is regressed on the average is the prefiltered spectrum; what is corrected is the spectrum itself
    pre = case.get('prefilter', 'none')
    if pre != 'none':
        t.correction.prefilter = AmplitudeFilter(pre)
        ctx.label('prefilter')
    seen = filtered_amplitudes(spectrum, pre)
    want = np.column_stack([own, spectrum])
    s = mx(spectrum)
    inside = np.zeros(case['n'], bool)
    for lo, hi in t.correction.ranges:
        sl = (own >= lo) & (own <= hi)
        inside |= sl
        if sl.sum() < 2:
            return ctx.trivial('range of fewer than two points')
        inter, slope = regression(avg[sl], seen[sl])
        sd = avg[sl].std()
        if sd < 1e-3 * (mx(avg[sl]) + 1e-9) or abs(slope) * sd < 1e-3 * (mx(spectrum[sl]) + mx(avg[sl])):
            return ctx.trivial('slope not well determined')
        want[sl, 1] = (spectrum[sl] - inter) / slope
        s = max(s, mx(want[sl, 1]), (abs(inter) + mx(spectrum)) / abs(slope))
    conf = np.column_stack([wave, amp])
    cm = T.MultiplicativeScatterCorrection.create_configuration_matrix(
        [M(np.column_stack([wave, amp[:, j]])) for j in range(amp.shape[1])])
    same(arr(cm, 'configuration matrix', conf.shape), conf, 'configuration matrix')
    t.configure(cm)
    m = M(np.column_stack([own, spectrum]))
    got = arr(t.transform(m), 'corrected spectrum', want.shape)
    same(m.data, np.column_stack([own, spectrum]), 'the spectrum given in')
    same(got[:, 0], own, 'wave numbers')
    same(got[~inside, 1], spectrum[~inside], 'points outside the ranges')
    close(got[:, 1], want[:, 1], 'corrected amplitudes', 1e-6, s)
    if case.get('extra'):       # further columns are none of the correction's business
        more = np.column_stack([m.data] + [np.cos(own * (j + 1)) for j in range(case['extra'])])
        close(arr(t.transform(M(more)), 'corrected spectrum with further columns', more.shape), np.column_stack([got, more[:, 2:]]),
              'corrected spectrum with further columns', 1e-12)
        ctx.label('further columns')
    if case['affine'] and case['ranges'] and pre == 'none':
        ctx.label('distorted average')
        close(got[inside, 1], avg[inside], 'correction of an affinely distorted average', 1e-6, s + mx(avg))
    if not case['ranges']:
        ctx.trivial('no range')
    ctx.label('%d ranges' % len(case['ranges']))


@sub('C15', 'invariance', lambda: msc_cases(), 1600)
def msc_invariance(case, ctx):
    """An offset and a gain applied to a spectrum make no difference after the correction."""
    amp = gens.expand(case['spectra'])
    wave = case['start'] + case['step'] * np.arange(case['n'])
    avg, sp = amp.mean(1), amp[:, case['which']]
    n = case['n']
    sd = avg.std()
    inter, slope = regression(avg, sp)
    if sd < 1e-2 * mx(avg) or abs(slope) * sd < 2e-2 * (mx(sp) + mx(avg)):
        return ctx.trivial('slope not well determined')
    t = T.MultiplicativeScatterCorrection()
    t.correction.ranges = [(wave[0], wave[-1])]
    t.configure(M(np.column_stack([wave, amp])))
    g1 = arr(t.transform(M(np.column_stack([wave, sp]))), 'corrected', (n, 2))
    sp2 = case['a'] * sp + case['b']
    g2 = arr(t.transform(M(np.column_stack([wave, sp2]))), 'corrected', (n, 2))
    close(g2[:, 1], g1[:, 1], 'gain %g and offset %g' % (case['a'], case['b']), 1e-5,
          mx(g1[:, 1]) + (mx(sp2) + abs(case['b'])) / abs(case['a'] * slope))


# ----------------------------------------------------------------------------------------- C16
@st.composite
def down_cases(draw):
    c = draw(gens.dim(1, 15, 40))
    return dict(x=draw(gens.anymat((1, 5), c)), start=draw(st.integers(0, c - 1)), step=draw(gens.dim(1, 6, 20)))


@sub('C16', 'downsample', lambda: down_cases(), 2000)
def downsample(case, ctx):
    """Downsampling keeps every step-th column from the start index on, exactly."""
    x = gens.expand(case['x'])
    f = Downsample()
    f.start_index, f.step = case['start'], case['step']
    m = M(x)
    got = arr(f.transform(m), 'Downsample')
    cols = [j for j in range(x.shape[1]) if j >= case['start'] and (j - case['start']) % case['step'] == 0]
    same(got, np.array([[row[j] for j in cols] for row in x]), 'Downsample')
    same(m.data, x, 'input')
    f2 = Downsample()
    same(arr(f2.transform(M(x)), 'default'), x, 'Downsample with its defaults')


@st.composite
def equi_cases(draw):
    return dict(x=draw(gens.anymat((1, 4), (1, 12))), n=draw(gens.dim(2, 25, 60)))


@oracle
def interpolate(x, n):
    c = x.shape[1]
    out = np.zeros((x.shape[0], n))
    for k in range(n):
        num, den = (c - 1) * k, n - 1
        i, rest = divmod(num, den)
        t = rest / den
        out[:, k] = x[:, i] if rest == 0 else (1 - t) * x[:, i] + t * x[:, i + 1]
    return out


@sub('C16', 'equidistance', lambda: equi_cases(), 3200)
def equidistance(case, ctx):
    """Resampling interpolates linearly between neighbouring columns and keeps both end columns."""
    x, n = gens.expand(case['x']), case['n']
    m = M(x)
    got = arr(Equidistance(n).transform(m), 'Equidistance', (x.shape[0], n))
    close(got, interpolate(x, n), 'Equidistance', 1e-12, max(mx(x), 1e-300))
    same(got[:, 0], x[:, 0], 'first column')
    same(got[:, -1], x[:, -1], 'last column')
    same(m.data, x, 'input')
    if n == x.shape[1]:
        same(got, x, 'resampling to the same number of columns')
    lin = np.linspace(-1, 3, x.shape[1])[None, :]
    close(arr(Equidistance(n).transform(M(lin)), 'line'), np.linspace(-1, 3, n)[None, :] if x.shape[1] > 1 else lin[:, [0] * n],
          'resampled straight line', 1e-12, 3)
    ctx.label('up' if n > x.shape[1] else 'down' if n < x.shape[1] else 'same')
    for bad in (1, 0, -3):
        e = Equidistance(n)
        try:
            e.num_samples = bad
            fail('num_samples=%d accepted', bad)
        except ValueError:
            pass
        require(e.num_samples == n, 'rejected value changed num_samples')


@st.composite
def multi_cases(draw):
    chain = draw(st.lists(st.one_of(
        st.tuples(st.just('down'), st.integers(0, 1), st.integers(1, 2)),
        st.tuples(st.just('equi'), gens.dim(2, 9, 30), st.just(0)),
        st.tuples(st.just('center'), st.just(0), st.just(0)),
        st.tuples(st.just('std'), st.just(0), st.just(0)),
        st.tuples(st.just('rows'), st.integers(1, 3), st.just(0)),
        st.tuples(st.just('multi'), st.integers(2, 5), st.just(0))), min_size=1, max_size=5).map(lambda l: [list(t) for t in l]))
    return dict(x=draw(gens.recipe((3, 6), (6, 12), ('gauss', 'int'), None)), z=draw(gens.recipe((3, 6), 1, ('gauss',), None)),
                chain=chain)


class Rows(Filter):
    """A filter of our own that changes the number of rows: the rows reversed, the first ones repeated."""
    def __init__(self, extra):
        self.extra = extra

    def transform(self, predictors):
        d = np.asarray(predictors.data)
        return M(np.vstack([d[::-1], d[:self.extra]]))


def build(step):
    k, a, b = step
    if k == 'rows':
        return Rows(a)
    if k == 'down':
        f = Downsample()
        f.start_index, f.step = a, b
        return f
    if k == 'equi':
        return Equidistance(a)
    if k == 'multi':
        return MultiFilter([Equidistance(a), T.Center()])
    return T.Center() if k == 'center' else T.Standardize()


@sub('C16', 'chain', lambda: multi_cases(), 1600)
def chain(case, ctx):
    """A chain of filters does what applying them one after the other does, also on later data, whatever their nesting."""
    x = gens.expand(case['x'])
    z = x[::-1] * 1.5 + gens.expand(case['z'])[:1, :1]
    multi = MultiFilter([build(s) for s in case['chain']])
    single = [build(s) for s in case['chain']]
    for what, a in (('first', x), ('second', z)):
        m = M(a)
        w = M(a)
        for f in single:
            w = f.transform(w)
            if not w.num_columns():
                return ctx.trivial('the chain drops every column')
        got = arr(multi.transform(m), what)
        want = arr(w, what)
        close(got, want, 'chain on the %s data set' % what, 1e-12, max(mx(want), mx(a)))
        same(m.data, a, 'input')
    if len(case['chain']) < 2:
        ctx.trivial('fewer than two filters')


# ----------------------------------------------------------------------------------------- C17
@st.composite
def kernel_cases(draw):
    c = draw(gens.dim(1, 6))
    return dict(k=draw(st.sampled_from(['linear', 'poly', 'rbf'])), x=draw(gens.recipe((1, 7), c, ('gauss', 'int', 'pos', 'dup'), (-1, 0))),
                y=draw(gens.recipe((1, 7), c, ('gauss', 'int', 'pos', 'dup'), (-1, 0))),
                gamma=draw(st.sampled_from([None, 0.5, 1.0, 2.0, 0.01, 0.0, 1e-4, 7.5])), coef=draw(st.sampled_from([0.0, 1.0, -0.5, 1e-3])),
                degree=draw(st.sampled_from([None, 1, 2, 3, 4])), nan=draw(st.booleans()))


def kernel_make(case):
    if case['k'] == 'linear':
        return K.LinearKernel()
    k = K.PolyKernel() if case['k'] == 'poly' else K.RBFKernel()
    if case['gamma'] is not None:
        k.gamma = case['gamma']
    elif case['nan']:
        k.gamma = float('nan')
    if case['k'] == 'poly':
        k.coef_0 = case['coef']
        if case['degree'] is not None:
            k.degree = case['degree']
    return k


@oracle
def kernel_value(case, u, v, power):
    dot = math.fsum(float(a) * float(b) for a, b in zip(u, v))
    if case['k'] == 'linear':
        return dot
    if case['k'] == 'poly':
        g = case['gamma'] if case['gamma'] is not None else 1.0 / len(u)
        return (g * dot + case['coef']) ** (case['degree'] or 3)
    g = case['gamma'] if case['gamma'] is not None else 1.0 / len(u) if case['nan'] else 1.0
    return math.exp(-g * math.sqrt(math.fsum((float(a) - float(b)) ** 2 for a, b in zip(u, v))) ** power)


@sub('C17', 'gram', lambda: kernel_cases(), 1800)
def gram(case, ctx):
    """Kernel matrices hold the kernel value of every pair of rows, agree with the vector form, and the one-argument form
    is the symmetric kernel matrix of the data with itself."""
    x, y = gens.expand(case['x']), gens.expand(case['y'])
    ctx.label(case['k'])

    def table(a, b, power):
        return np.array([[kernel_value(case, u, v, power) for v in b] for u in a])

    k = kernel_make(case)
    mxm, mym = M(x), M(y)
    kxy = arr(k.apply_matrix(mxm, mym), 'kernel matrix', (len(x), len(y)))
    kxx = arr(k.apply_matrix(mxm), 'kernel matrix', (len(x), len(x)))
    power = 2
    if case['k'] == 'rbf':
        one = table(x, y, 1)
        if np.max(np.abs(kxy - one)) <= 1e-9:
            power = 1
            if np.max(np.abs(table(x, y, 2) - one)) > 1e-9:
                ctx.finding('rbf-distance-not-squared')
        if np.max(np.abs(table(x, y, 2) - one)) <= 1e-9:    # e.g. all distances 0 or 1
            w2, w1 = table(x, x, 2), table(x, x, 1)
            power = 1 if np.max(np.abs(kxx - w1)) <= np.max(np.abs(kxx - w2)) else 2
    wxy, wxx = table(x, y, power), table(x, x, power)
    close(kxy, wxy, '%s kernel matrix of two data sets' % case['k'], 1e-10, max(mx(wxy), 1e-6) if case['k'] != 'poly'
          else max(mx(wxy), mx(x @ y.T) ** (case['degree'] or 3), 1e-6))
    close(kxx, wxx, '%s kernel matrix of one data set' % case['k'], 1e-10, max(mx(wxx), 1e-6))
    if case['k'] == 'rbf':
        close(np.diag(kxx), np.ones(len(x)), 'RBF kernel of a point with itself', 1e-12)
        require(np.all(kxx <= 1 + 1e-12) and np.all(kxx >= 0), 'RBF kernel outside [0, 1]')
    close(kxx, kxx.T, 'symmetry', 1e-12, max(mx(kxx), 1e-300))
    for i in range(len(x)):
        for j in range(len(y)):
            v = float(k.apply_vector(M(x[i:i + 1]), M(y[j:j + 1])))
            require(abs(v - kxy[i, j]) <= 1e-10 * max(1e-6, mx(wxy), mx(x @ y.T) ** 4 if case['k'] == 'poly' else 0),
                    'apply_vector of rows %d, %d is %r, the matrix has %r', i, j, v, kxy[i, j])
    same(mxm.data, x, 'first data set')
    same(mym.data, y, 'second data set')
    if case['k'] in ('linear', 'rbf'):
        ev = np.linalg.eigvalsh((kxx + kxx.T) / 2)
        require(ev.min() >= -1e-9 * max(abs(ev).max(), 1e-12), 'kernel matrix is not positive semi-definite: %r', ev)
