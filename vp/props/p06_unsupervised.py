"""C18 PCA, C19 canonical correlation filter, C20 GLSW/EPO, C21 their y-gradient variants, C22 FastICA."""
import importlib
import math

import numpy as np
from hypothesis import strategies as st

from wai.ma.algorithm import CCAFilter, PCA
from wai.ma.algorithm.glsw import EPO, GLSW, YGradientEPO, YGradientGLSW
from wai.ma.algorithm.ica import Algorithm, FastICA
from wai.ma.algorithm.ica.approxfun import Cube, Exponential, LogCosH
from wai.ma.core.matrix import factory

from .. import gens
from ..engine import fail, oracle, require, sub
from ..ref import arr, close, mx, same, ordered


def M(a):
    return factory.create(ordered(a))


def up_to_sign(got, want, what, tol, scale=None):
    """Columns agree up to the sign of each column."""
    require(got.shape == want.shape, '%s: shape %r, expected %r', what, got.shape, want.shape)
    got = got.copy()
    for j in range(want.shape[1]):
        if got[:, j] @ want[:, j] < 0:
            got[:, j] *= -1
    close(got, want, what, tol, scale)


# ----------------------------------------------------------------------------------------- C18
@st.composite
def pca_cases(draw):
    late = draw(gens.seldom(10))
    x = draw(gens.recipe((40, 60), (2, 4), ('late',), (-1, 1))) if late else \
        draw(gens.recipe((3, 14), (1, 9), ('gauss', 'corr', 'const', 'pos', 'spec', 'big', 'int', 'dup', 'late'), (-6, 3)))
    return dict(x=x, units=draw(st.sampled_from([0, 0, 0, 3, 5])),
                center=draw(st.booleans()), variance=draw(st.sampled_from([0.95, 0.5, 0.8, 0.99, 0.999999, 0.1])),
                maxc=draw(st.sampled_from([-1, -1, 1, 2, 3, 12])),
                other=draw(gens.recipe((3, 8), (1, 6), ('gauss',), None)))


@oracle
def pca_data(case):
    """The data, if asked for with columns of very different size."""
    x = gens.expand(case['x'])
    return x * 10.0 ** (-case['units'] * (np.arange(x.shape[1]) % 3)) if case['units'] else x


@oracle
def pca_reference(x, center, variance, maxc):
    keep = [j for j in range(x.shape[1]) if len(set(x[:, j].tolist())) > 1]
    if not keep:
        return None
    z = x[:, keep] - x[:, keep].mean(0)
    if not center:
        z = z / z.std(axis=0, ddof=1)
    u, s, vt = np.linalg.svd(z, full_matrices=False)
    lam = s ** 2 / (len(x) - 1)
    share = np.cumsum(lam) / lam.sum()
    if np.any(np.abs(share - variance) < 1e-9):
        return 'threshold'
    k = int(np.argmax(share >= variance)) + 1
    if maxc > 0:
        k = min(k, maxc)
    k = min(k, len(keep))
    return keep, z, lam, vt.T, k


@sub('C18', 'components', lambda: pca_cases(), 2800)
def pca_components(case, ctx):
    """Scores and loadings are the principal components of the centred or standardised data, as many as the requested
    share of variance and column limit ask for, dominant first; constant columns have no part in them."""
    x = pca_data(case)
    r = pca_reference(x, case['center'], case['variance'], case['maxc'])
    if r is None:
        return ctx.trivial('all columns constant')
    if r == 'threshold':
        return ctx.trivial('share of variance equals the threshold')
    keep, z, lam, V, k = r
    p = PCA()
    p.center, p.variance, p.max_columns = case['center'], case['variance'], case['maxc']
    if case['other']['seed'] % 2:      # a previous use leaves nothing behind
        p.transform(M(gens.expand(case['other'])))
        ctx.label('reused')
    m = M(x)
    scores = arr(p.transform(m), 'scores', (len(x), k))
    same(m.data, x, 'data')
    load = arr(p.loadings, 'loadings', (x.shape[1], k + 1))
    same(load[:, -1], np.arange(1.0, x.shape[1] + 1), 'index column of the loadings')
    drop = [j for j in range(x.shape[1]) if j not in keep]
    same(load[drop, :-1], np.zeros((len(drop), k)), 'loadings of constant columns')
    L = load[keep, :-1]
    s = mx(z) * np.sqrt(z.shape[1])
    close(L.T @ L, np.eye(k), 'loadings are orthonormal', 1e-8)
    close(scores, z @ L, 'scores are the data projected on the loadings', 1e-9, s)
    cov = scores.T @ scores / (len(x) - 1)
    close(cov, np.diag(lam[:k]), 'covariance of the scores', 1e-8, lam[0])
    same(arr(p.scores, 'scores attribute'), scores, 'scores attribute')
    gaps = np.diff(np.concatenate([[np.inf], lam, [0.0] if len(lam) > k else []]))
    clear = all(abs(gaps[i]) > 1e-4 * lam[0] for i in range(min(k + 1, len(gaps))))
    if clear:
        up_to_sign(L, V[:, :k], 'loadings', 1e-7)
        ctx.label('simple spectrum')
    ctx.label('center' if case['center'] else 'standardise', 'constant columns' if drop else 'no constant columns',
              'wide' if x.shape[1] >= len(x) else 'tall', 'limited' if case['maxc'] > 0 else 'unlimited')


@sub('C18', 'relations', lambda: pca_cases(), 1200)
def pca_relations(case, ctx):
    """Principal components ignore the order of rows and added offsets, and, standardised, the unit of each column."""
    x = pca_data(case)
    r = pca_reference(x, case['center'], case['variance'], case['maxc'])
    if r is None or r == 'threshold':
        return ctx.trivial('no clear reference')
    keep, z, lam, V, k = r
    lk = np.append(lam, 0.0)
    if k < len(lam) and lk[k - 1] - lk[k] < 1e-4 * lam[0]:
        return ctx.trivial('repeated eigenvalue at the cut')

    def run(a):
        p = PCA()
        p.center, p.variance, p.max_columns = case['center'], case['variance'], case['maxc']
        return arr(p.transform(M(a)), 'scores', (len(x), k))

    s0 = run(x)
    g0 = s0 @ s0.T
    perm = np.random.Generator(np.random.PCG64(case['x']['seed'])).permutation(len(x))
    s1 = run(x[perm])
    close(s1 @ s1.T, g0[np.ix_(perm, perm)], 'rows permuted', 1e-6, mx(g0))
    if case['x']['kind'] != 'const':
        s2 = run(x + np.arange(1.0, x.shape[1] + 1) * np.abs(x).max(0))
        close(s2 @ s2.T, g0, 'offsets added', 1e-6, mx(g0))
    if not case['center']:
        s3 = run(x * 2.0 ** (np.arange(x.shape[1]) % 3 - 1))
        close(s3 @ s3.T, g0, 'columns rescaled', 1e-6, mx(g0))


# ----------------------------------------------------------------------------------------- C19
@st.composite
def cca_cases(draw):
    n, p, q = draw(gens.dim(3, 20, 50, (64, 101, 130))), draw(gens.dim(1, 6, 14, (33,))), draw(gens.dim(1, 5, 12))
    return dict(x=draw(gens.recipe(n, p, ('gauss', 'corr', 'pos', 'big', 'const'), (-1, 1))),
                y=draw(gens.recipe(n, q, ('gauss', 'pos', 'int'), (-1, 1))), mix=draw(st.booleans()),
                lx=draw(st.sampled_from([None, 1e-2, 1.0, 1e-1, 10.0])), ly=draw(st.sampled_from([None, 1e-2, 1.0, 1e-1, 10.0])),
                k=draw(gens.dim(1, 4, 10)), z=draw(gens.recipe((1, 4), p, ('gauss',), None)),
                w=draw(gens.recipe((1, 4), q, ('gauss',), None)))


@oracle
def inv_sqrt(a):
    lam, v = np.linalg.eigh((a + a.T) / 2)
    return v @ np.diag(lam ** -0.5) @ v.T, lam


@sub('C19', 'projections', lambda: cca_cases(), 3200)
def cca_projections(case, ctx):
    """The projections are the leading pairs of the regularised canonical correlation problem: whitened, mutually
    uncorrelated across pairs, correlations equal to the leading singular values; new data is centred by the training means."""
    x, y = gens.expand(case['x']), gens.expand(case['y'])
    if case['mix']:
        y = y + (x[:, :1] - x[:, :1].mean()) / max(mx(x[:, :1] - x[:, :1].mean()), 1e-9) * mx(y)
    k = case['k']
    f = CCAFilter()
    if case['lx'] is not None:
        f.lambda_X = case['lx']
    if case['ly'] is not None:
        f.lambda_Y = case['ly']
    f.kcca = k
    mx_, my_ = M(x), M(y)
    msg = f.initialize(mx_, my_)
    same(mx_.data, x, 'x')
    same(my_.data, y, 'y')
    if k > min(x.shape[1], y.shape[1]):
        require(isinstance(msg, str) and msg, 'too large kcca accepted: %r', msg)
        require(not f.is_initialised(), 'initialised after an error')
        return ctx.label('too many')
    require(msg is None and f.is_initialised(), 'initialize failed: %r', msg)
    xc, yc = x - x.mean(0), y - y.mean(0)
    cxx = xc.T @ xc + (case['lx'] or 1e-2) * np.eye(x.shape[1])
    cyy = yc.T @ yc + (case['ly'] or 1e-2) * np.eye(y.shape[1])
    ix, lamx = inv_sqrt(cxx)
    iy, lamy = inv_sqrt(cyy)
    if lamx[-1] > 1e9 * lamx[0] or lamy[-1] > 1e9 * lamy[0]:
        return ctx.trivial('ill-conditioned')
    U, s, Vt = np.linalg.svd(ix @ (xc.T @ yc) @ iy)
    tol = 1e-13 * max(lamx[-1] / lamx[0], lamy[-1] / lamy[0]) * 100 + 1e-9
    px = arr(f.proj_X, 'X projection', (x.shape[1], k))
    py = arr(f.proj_Y, 'Y projection', (y.shape[1], k))
    close(px.T @ cxx @ px, np.eye(k), 'X projection is whitened', tol, 1.0)
    close(py.T @ cyy @ py, np.eye(k), 'Y projection is whitened', tol, 1.0)
    close(px.T @ (xc.T @ yc) @ py, np.diag(s[:k]), 'canonical correlations', tol, 1.0)
    sk = np.append(s, 0.0)
    if all(sk[i] - sk[i + 1] > 1e-3 for i in range(k)):
        up_to_sign(px, ix @ U[:, :k], 'X projection', tol * 1e3, mx(ix))
        up_to_sign(py, iy @ Vt[:k].T, 'Y projection', tol * 1e3, mx(iy))
        ctx.label('simple spectrum')
    z, w = gens.expand(case['z']), gens.expand(case['w'])
    for a in (x, z):
        close(arr(f.transform(M(a)), 'transformed', (len(a), k)), (a - x.mean(0)) @ px, 'transform', 1e-10,
              (mx(a) + mx(x)) * mx(px) * a.shape[1])
    for b in (y, w):
        close(arr(f.transform_response(M(b)), 'transformed response', (len(b), k)), (b - y.mean(0)) @ py,
              'transform_response', 1e-10, (mx(b) + mx(y)) * mx(py) * b.shape[1])


# ----------------------------------------------------------------------------------------- C20
@st.composite
def glsw_cases(draw):
    p = draw(st.integers(21, 40)) if draw(gens.seldom(10)) else draw(gens.dim(1, 6, 14, (33, 60)))
    n = draw(st.integers(max(3, p + 2), p + 10)) if draw(st.booleans()) else draw(gens.dim(1, 14, 40, (64, 101, 130)))
    return dict(a=draw(gens.recipe(n, p, ('gauss', 'corr', 'pos', 'big', 'int'), (-1, 1))),
                d=draw(gens.recipe(n, p, ('gauss', 'corr', 'pos'), (-2, 0))),
                alpha=draw(st.sampled_from([None, None, 1e-3, 1.0, 100.0, 0.05, 1e-6, 1e-9, 1e4, 1e7])),
                N=draw(st.sampled_from([None, None, 1, 2, 3, 8, max(1, p - 1), p, p + 1, (2 * p + 2) // 3])),
                z=draw(gens.recipe((1, 5), p, ('gauss', 'pos'), None)), y=draw(gens.recipe(n, 1, ('gauss', 'pos'), (-9, 7))),
                flat=draw(st.sampled_from([0, 0, 0, 1, 2])))


def glsw_data(case):
    """The two data sets; the last 'flat' columns of some are constant, which leaves zeros in the covariance."""
    x1, d = gens.expand(case['a']), gens.expand(case['d']) * 0.3
    k = min(case['flat'], x1.shape[1] - 1)
    if k:
        x1, d = x1.copy(), d.copy()
        x1[:, -k:], d[:, -k:] = np.round(x1[0, -k:]), 0.25
    return x1, x1 + d


def check_glsw(g, C, alpha, ctx):
    """G is V diag(1/sqrt(s^2/alpha+1)) V' for the eigenvectors V of C; the pairing of vectors and weights is the
    recorded finding (descending weights, vectors in the order of the solver)."""
    lam, V = np.linalg.eigh(C)
    lam = np.clip(lam, 0, None)
    w = 1.0 / np.sqrt(lam ** 2 / alpha + 1)
    rel = mx(w)
    tol = 1e-6 + 3e-15 * lam.max() / math.sqrt(alpha)      # the eigenvalues are only known to rounding of the largest
    close(g, g.T, 'G is symmetric', 1e-7, rel)
    close(np.sort(np.linalg.eigvalsh((g + g.T) / 2)), np.sort(w), 'weights of G', tol, rel)
    close(g @ C, C @ g, 'G shares the eigenvectors of the covariance', tol, rel * mx(C) * 10)
    good = V @ np.diag(w) @ V.T
    if mx(g - good) > tol * rel:
        gaps = np.diff(np.sort(lam))
        if len(lam) > 1 and gaps.min() > 1e-4 * lam.max() and np.diff(np.sort(w)).min() > 1e-4 * rel:
            # each eigenvector must carry exactly one of the weights
            got = np.array([v @ g @ v for v in V.T])
            close(np.sort(got), np.sort(w), 'weights of the eigenvectors', 10 * tol, rel)
        ctx.finding('glsw-weights-paired-out-of-order')
        ctx.label('weights out of order')
    else:
        ctx.label('weights in order')


@sub('C20', 'glsw', lambda: glsw_cases(), 2800)
def glsw(case, ctx):
    """The GLSW filter matrix is built from the covariance of the centred differences and the weights 1/sqrt(s^2/alpha+1),
    and transforming multiplies by it."""
    x1, x2 = glsw_data(case)
    z = gens.expand(case['z'])
    f = GLSW()
    if case['alpha'] is not None:
        f.alpha = case['alpha']
    m1, m2 = M(x1), M(x2)
    msg = f.initialize(m1, m2)
    require(msg is None and f.is_initialised(), 'initialize failed: %r', msg)
    same(m1.data, x1, 'x1')
    same(m2.data, x2, 'x2')
    d = (x2 - x2.mean(0)) - (x1 - x1.mean(0))
    C = d.T @ d
    p = x1.shape[1]
    if mx(d) < 1e-8 * mx(x1):
        return ctx.trivial('difference drowned in rounding')
    g = arr(f.G, 'G', (p, p), finite=True)
    check_glsw(g, C, case['alpha'] or 1e-3, ctx)
    for a in (z, x1):
        close(arr(f.transform(M(a)), 'transformed', a.shape), a @ g, 'transform', 1e-10, mx(a) * mx(g) * p)
    ctx.label('wide' if p >= len(x1) else 'tall', 'constant columns' if p > 1 and case['flat'] else 'no constant columns')
    if p == 1:
        ctx.trivial('one column')


def check_epo(g, C, N, ctx):
    lam, V = np.linalg.eigh(C)
    lam, V = lam[::-1], V[:, ::-1]
    p = len(lam)
    k = min(N, p)
    close(g, g.T, 'G is symmetric', 1e-8, 1.0)
    close(g @ g, g, 'G is a projection', 1e-8, 1.0)
    require(abs(np.trace(g) - k) <= 1e-7, 'G has rank %r, expected %d', np.trace(g), k)
    ll = np.append(lam, -np.inf)
    if k == p or ll[k - 1] - ll[k] > 1e-5 * max(lam[0], 1e-300):
        close(g, V[:, :k] @ V[:, :k].T, 'projection on the dominant eigenvectors', 1e-6, 1.0)
        ctx.label('clear cut')
    close(g @ C, C @ g, 'G shares the eigenvectors of the covariance', 1e-7, mx(C) * p)


@sub('C20', 'epo', lambda: glsw_cases(), 2400)
def epo(case, ctx):
    """The EPO filter matrix is the orthogonal projection on the N dominant eigenvectors of that covariance."""
    x1, x2 = glsw_data(case)
    z = gens.expand(case['z'])
    f = EPO()
    if case['N'] is not None:
        f.N = case['N']
    m1, m2 = M(x1), M(x2)
    msg = f.initialize(m1, m2)
    require(msg is None and f.is_initialised(), 'initialize failed: %r', msg)
    same(m1.data, x1, 'x1')
    same(m2.data, x2, 'x2')
    d = (x2 - x2.mean(0)) - (x1 - x1.mean(0))
    p = x1.shape[1]
    if mx(d) < 1e-8 * mx(x1):
        return ctx.trivial('difference drowned in rounding')
    g = arr(f.G, 'G', (p, p))
    check_epo(g, d.T @ d, case['N'] or 5, ctx)
    for a in (z, x1):
        close(arr(f.transform(M(a)), 'transformed', a.shape), a @ g, 'transform', 1e-10, mx(a) * mx(g) * p)
    if p == 1:
        ctx.trivial('one column')


@st.composite
def mismatch_cases(draw):
    return dict(a=draw(gens.recipe((2, 5), (1, 5), ('gauss',), None)), b=draw(gens.recipe((2, 5), (1, 5), ('gauss',), None)),
                f=draw(st.sampled_from(['GLSW', 'EPO', 'YGradientGLSW', 'YGradientEPO'])), none=draw(st.sampled_from([0, 0, 1, 2])),
                before=draw(st.booleans()))


@sub('C20', 'rejects', lambda: mismatch_cases(), 1200)
def glsw_rejects(case, ctx):
    """Data sets that do not fit together (or a missing one) yield an error message and leave the filter unusable."""
    a, b = gens.expand(case['a']), gens.expand(case['b'])
    grad = case['f'].startswith('Y')
    ok = (a.shape[0] == b.shape[0]) if grad else a.shape == b.shape
    f = globals()[case['f']]()
    if case['before']:
        n = 9
        t = np.arange(n * 2.0).reshape(n, 2) ** 1.5 % 7
        require(f.initialize(M(t), M(np.cos(t[:, :1] * 3)) if grad else M(np.cos(t))) is None, 'initialize failed')
    if case['none'] == 0 and ok:
        return ctx.trivial('shapes fit')
    msg = f.initialize(None if case['none'] == 1 else M(a), None if case['none'] == 2 else M(b))
    require(isinstance(msg, str) and len(msg) > 0, 'no error message: %r', msg)
    require(not f.is_initialised(), 'initialised in spite of the error')
    try:
        f.transform(M(a))
    except RuntimeError:
        return
    fail('transform after a failed initialisation')


# ----------------------------------------------------------------------------------------- C21
@oracle
def gradient(a):
    """Five-point first derivative along the rows, edge rows replicated."""
    e = np.vstack([a[:1], a[:1], a, a[-1:], a[-1:]])
    return (2 * e[4:] + e[3:-1] - e[1:-3] - 2 * e[:-4]) / 10


@st.composite
def sgf_cases(draw):
    return dict(x=draw(gens.anymat((1, 12), (1, 6))), slope=draw(st.integers(-5, 5)))


@sub('C21', 'derivative', lambda: sgf_cases(), 2000)
def derivative(case, ctx):
    """The y-gradient smoothing is the five-point first derivative down the columns with replicated edges (recorded finding:
    with opposite sign)."""
    x = gens.expand(case['x'])
    for F in smoothers():
        one_derivative(F, x, case, ctx)
    if len(x) < 5:
        ctx.trivial('fewer than five rows')


def smoothers():
    """The stand-alone filter and the one inside the y-gradient algorithms (neither is exported)."""
    out = []
    for module, name in (('wai.ma.transformation._YGradientGLSWSavitzkyGolayFilter', 'YGradientGLSWSavitzkyGolayFilter'),
                         ('wai.ma.algorithm.glsw._YGradientGLSW', 'SavitzkyGolayFilter')):
        try:
            out.append(getattr(importlib.import_module(module), name))
        except (ImportError, AttributeError):
            pass
    return out


def one_derivative(F, x, case, ctx):
    m = M(x)
    got = arr(F().transform(m), 'derivative', x.shape)
    same(m.data, x, 'input')
    w = gradient(x)
    s = max(mx(x), 1e-300)
    if mx(got - w) > 1e-12 * s >= mx(got + w):
        ctx.finding('ygradient-derivative-negated')
        w = -w
    close(got, w, 'derivative', 1e-12, s)
    if len(x) >= 5:
        line = case['slope'] * np.arange(len(x), dtype=float)[:, None] + 2
        g = arr(F().transform(M(line)), 'line')
        close(np.abs(g[2:-2]), np.full((len(x) - 4, 1), abs(float(case['slope']))), 'derivative of a line', 1e-12, 1 + mx(line))


@oracle
def ygrad_cov(x, y, sign):
    o = np.argsort(y.ravel(), kind='stable')
    xs, ys = gradient(x[o]), sign * gradient(y[o])
    sd = ys.std(ddof=1)
    w = 2.0 ** (-ys.ravel() / sd)
    return xs.T @ np.diag(w ** 2) @ xs, sd


@sub('C21', 'weighted', lambda: glsw_cases(), 2800)
def ygradient(case, ctx):
    """Sorted by the response, rows weigh 2^(-gradient/deviation of the gradients); the GLSW and EPO matrices follow from
    that weighted covariance of the gradients of the data, whatever the order of the rows."""
    x, y, z = glsw_data(case)[0], gens.expand(case['y']), gens.expand(case['z'])
    if len(x) < 3 or len(set(y.ravel().tolist())) < len(y):
        return ctx.trivial('too few rows or tied responses')
    p = x.shape[1]
    Cm, sd = ygrad_cov(x, y, -1)
    Cp, _ = ygrad_cov(x, y, 1)
    if sd < 1e-6 * mx(y):
        return ctx.trivial('constant gradient')
    perm = np.random.Generator(np.random.PCG64(case['y']['seed'])).permutation(len(x))
    for name, F in (('GLSW', YGradientGLSW), ('EPO', YGradientEPO)):
        f = F()
        if case['alpha'] is not None and mx(Cm) > 1e-100:
            f.alpha = case['alpha'] * mx(Cm) ** 2
        if name == 'EPO' and case['N'] is not None:
            f.N = case['N']
        alpha = f.alpha
        m1, m2 = M(x), M(y)
        msg = f.initialize(m1, m2)
        require(msg is None and f.is_initialised(), 'initialize failed: %r', msg)
        same(m1.data, x, 'x')
        same(m2.data, y, 'y')
        g = arr(f.G, 'G', (p, p))
        from ..engine import Violation, Ctx
        sub_ctx = Ctx()
        chk = (lambda C, c: check_glsw(g, C, alpha, c)) if name == 'GLSW' else (lambda C, c: check_epo(g, C, case['N'] or 5, c))
        try:
            chk(Cp, sub_ctx)
        except Violation:
            sub_ctx = Ctx()
            chk(Cm, sub_ctx)
            ctx.finding('ygradient-derivative-negated')
        for k in sub_ctx.findings:
            ctx.finding(k)
        ctx.label(*['%s: %s' % (name, l) for l in sub_ctx.labels])
        close(arr(f.transform(M(z)), 'transformed', z.shape), z @ g, 'transform', 1e-10, mx(z) * mx(g) * p)
        if name == 'EPO':
            f2 = F()
            f2.N = f.N
            f2.initialize(M(x[perm]), M(y[perm]))
            lam = np.linalg.eigvalsh(Cm)[::-1]
            ll = np.append(lam, -np.inf)
            k = min(case['N'] or 5, p)
            if k == p or ll[k - 1] - ll[k] > 1e-5 * max(lam[0], 1e-300):
                close(arr(f2.G, 'G', (p, p)), g, 'rows permuted', 1e-6, 1.0)


# ----------------------------------------------------------------------------------------- C22
FUNS = {'logcosh': LogCosH, 'cube': Cube, 'exp': Exponential}


def gfun(name, u):
    if name == 'logcosh':
        t = np.tanh(u)
        return t, 1 - t ** 2
    if name == 'cube':
        return u ** 3, 3 * u ** 2
    e = np.exp(-u ** 2 / 2)
    return u * e, (1 - u ** 2) * e


@st.composite
def ica_cases(draw):
    whiten = draw(st.sampled_from([True, True, True, False]))
    p = draw(gens.dim(1, 6, 14))
    n = p + draw(st.sampled_from(list(range(2, 37)) * 2 + [60, 100, 150]))
    return dict(x=draw(gens.recipe(n, p, ('gauss', 'pos', 'corr', 'big', 'spec'), (-1, 1))), whiten=whiten,
                k=draw(gens.dim(1, 7, 16)), fun=draw(st.sampled_from(sorted(FUNS))), parallel=draw(st.booleans()),
                max_iter=draw(st.sampled_from([0, 1, 2, 5, 50, 500])), reuse=draw(st.booleans()))


def ica_data(case):
    x = gens.expand(case['x'])
    # the contrast functions vanish or overflow on data of another magnitude, unless it is whitened
    return x if case['whiten'] else x * (2.0 / max(mx(x), 1e-9))


def ica_make(case):
    f = FastICA()
    f.num_components, f.whiten, f.max_iter = case['k'], case['whiten'], case['max_iter']
    f.fun = FUNS[case['fun']]()
    f.algorithm = Algorithm.PARALLEL if case['parallel'] else Algorithm.DEFLATION
    return f


@sub('C22', 'invariants', lambda: ica_cases(), 1500)
def ica_invariants(case, ctx):
    """Whatever the algorithm and number of iterations: sources are an orthonormal rotation of the whitened data (or of the
    data itself), reproduce it on reconstruction (its dominant part, if fewer components are kept), and running again on the
    same data gives the same sources."""
    x = ica_data(case)
    n, p = x.shape
    xc = x - x.mean(0)
    U, s, Vt = np.linalg.svd(xc, full_matrices=False)
    if case['whiten'] and s[-1] < 1e-5 * s[0]:
        return ctx.trivial('rank-deficient')
    if case['max_iter'] == 0 and not case['parallel']:
        return ctx.trivial('start weights, which nothing has made orthogonal')
    k = min(case['k'], p, n) if case['whiten'] else p
    if k < len(s) and s[k - 1] - s[k] < 1e-6 * s[0]:
        return ctx.trivial('repeated singular value at the cut')
    f = ica_make(case)
    if case['reuse']:
        f.transform(M(x[::-1] * 2 + 1))
        ctx.label('reused')
    m = M(x)
    S = arr(f.transform(m), 'sources', (n, k)).copy()
    same(m.data, x, 'data')
    ctx.label('parallel' if case['parallel'] else 'deflation', 'whiten' if case['whiten'] else 'raw', case['fun'])
    W = arr(f.components, 'components', (k, p))
    tol = 1e-7
    if case['whiten']:
        close(S.T @ S, np.eye(k), 'whitened sources are orthonormal', tol, 1.0)
        close(S, xc @ W.T, 'sources are the components applied to the centred data', 1e-8, max(mx(xc) * mx(W) * p, 1))
        want = x.mean(0) + U[:, :k] * s[:k] @ Vt[:k]
    else:
        close(W @ W.T, np.eye(k), 'unmixing is orthonormal', tol, 1.0)
        close(S, x @ W.T, 'sources are the components applied to the data', 1e-9, mx(x) * p)
        want = x
    rec = arr(f.reconstruct(), 'reconstruction', x.shape)
    close(rec, want, 'reconstruction', 1e-7, mx(x) * max(1, s[0] / s[min(k, len(s)) - 1]) ** (1 if case['whiten'] else 0))
    mix = arr(f.mixing, 'mixing', (p, k))
    close(W @ mix, np.eye(k), 'mixing inverts the components', 1e-7, 1.0 + mx(W) * mx(mix))
    S2 = arr(ica_make(case).transform(M(x)), 'sources', (n, k))
    close(S2, S, 'sources of another run on the same data', 1e-12, mx(S))
    try:
        FastICA().reconstruct()
    except Exception:
        pass
    else:
        fail('reconstruct before any data')


@oracle
def ica_reference(X1, W0, fun, max_iter, tol, parallel, transposed=False):
    """FastICA on whitened data X1 (components x samples) from the start weights W0."""
    k, p = X1.shape

    def sym(w):
        lam, v = np.linalg.eigh(w @ w.T)
        return v @ np.diag(lam ** -0.5) @ v.T @ w

    if parallel:
        W = sym(W0)
        for _ in range(max_iter):
            g, gp = gfun(fun, (W.T if transposed else W) @ X1)
            W1 = sym(g @ X1.T / p - gp.mean(1)[:, None] * W)
            lim = np.max(np.abs(np.abs(np.diag(W1 @ W.T)) - 1))
            W = W1
            if lim < tol:
                break
        return W
    W = np.zeros((k, k))
    for j in range(k):
        w = W0[j] / np.linalg.norm(W0[j])
        for _ in range(max_iter):
            g, gp = gfun(fun, w @ X1)
            w1 = X1 @ g / p - gp.mean() * w
            w1 = w1 - W[:j].T @ (W[:j] @ w1)
            w1 /= np.linalg.norm(w1)
            lim = abs(abs(w1 @ w) - 1)
            w = w1
            if lim < tol:
                break
        W[j] = w
    return W


@st.composite
def fixed_cases(draw):
    c = draw(ica_cases())
    c['max_iter'] = draw(st.sampled_from([0, 1, 2, 3, 10, 30]))
    c['tol'] = draw(st.sampled_from([None, 1e-6, 1e-2]))
    return c


@sub('C22', 'iteration', lambda: fixed_cases(), 1500)
def ica_iteration(case, ctx):
    """The sources are those of the FastICA fixed-point iteration with the chosen contrast function, iteration limit and
    tolerance (symmetric variant: as recorded in the findings)."""
    x = ica_data(case)
    n, p = x.shape
    f = ica_make(case)
    if case['tol'] is not None:
        f.tol = case['tol']
    tol = 1e-4 if case['tol'] is None else case['tol']
    if case['whiten']:
        X = (x - x.mean(0)).T
        U, s, _ = np.linalg.svd(X, full_matrices=False)
        k = min(case['k'], p, n)
        if s[-1] < 1e-4 * s[0] or np.min(np.abs(np.diff(np.append(s, 0)))) < 1e-4 * s[0]:
            return ctx.trivial('singular values too close')
        white = (-U / s).T[:k]       # orientation of the singular vectors as in Matrix
        X1 = white @ X * np.sqrt(n)
    else:
        k, X1 = p, x.T
    S = arr(f.transform(M(x)), 'sources', (n, k))
    W0 = np.asarray(factory.randn(k, k, 1).data)

    def ref(X1, transposed):
        W = ica_reference(X1, W0, case['fun'], case['max_iter'], tol, case['parallel'], transposed)
        return (W @ X1).T / (np.sqrt(n) if case['whiten'] else 1.0)

    def stable(transposed):
        """The reference result, if rounding errors cannot change it."""
        a = ref(X1, transposed)
        for q in (1, 2):
            e = np.random.Generator(np.random.PCG64(q)).standard_normal(X1.shape)
            b = ref(X1 * (1 + 1e-9 * e), transposed)
            if not np.all(np.isfinite(b)) or mx(np.abs(a) - np.abs(b)) > 1e-6 * mx(a):
                return None
        return a

    # orientation of whitened rows is free up to sign: try to match it through the components
    if case['whiten']:
        Wh = arr(f.whitening, 'whitening', (k, p))
        sg = np.sign(np.sum(Wh * white, axis=1))
        X1 = X1 * sg[:, None]
    a = stable(False)
    if case['parallel'] and k > 1:
        b = stable(True)
        if a is None or b is None:
            return ctx.trivial('sensitive to rounding')
        if mx(S - b) <= 1e-5 * mx(b):
            if mx(S - a) > 1e-5 * mx(a):
                ctx.finding('fastica-parallel-transposed')
            return
    if a is None:
        return ctx.trivial('sensitive to rounding')
    close(S, a, 'sources', 1e-5, mx(a))
    ctx.label('parallel' if case['parallel'] else 'deflation')


@st.composite
def mix_cases(draw):
    return dict(seed=draw(gens.seeds()), k=draw(st.integers(2, 3)), n=draw(st.sampled_from([300, 500])),
                fun=draw(st.sampled_from(['logcosh', 'exp', 'cube'])), extra=draw(st.integers(0, 2)))


@oracle
def mixture(case):
    rng = np.random.Generator(np.random.PCG64(case['seed']))
    n = case['n']
    t = np.arange(n)
    src = [np.sin(t / 7.0 + rng.uniform(0, 6)), rng.uniform(-1, 1, n), np.sign(np.sin(t / 13.0 + rng.uniform(0, 6)))][:case['k']]
    S = np.array(src).T
    S = (S - S.mean(0)) / S.std(0)
    while True:
        A = rng.standard_normal((case['k'] + case['extra'], case['k']))
        sv = np.linalg.svd(A, compute_uv=False)
        if sv[0] < 8 * sv[-1]:
            break
    return S, S @ A.T + rng.standard_normal(case['k'] + case['extra']) * 3, A


def best_match(S, R):
    """Smallest of the best absolute correlations of each true source with a distinct recovered one."""
    import itertools
    c = np.abs(np.corrcoef(S.T, R.T)[:S.shape[1], S.shape[1]:])
    return max(min(c[i, q[i]] for i in range(S.shape[1])) for q in itertools.permutations(range(R.shape[1]), S.shape[1]))


@sub('C22', 'separation', lambda: mix_cases(), 180, 1500)
def separation(case, ctx):
    """Independent source signals mixed linearly are recovered up to order, sign and scale."""
    S, X, A = mixture(case)
    if case['extra']:
        X = X + 1e-3 * np.random.Generator(np.random.PCG64(case['seed'] + 1)).standard_normal(X.shape)
    f = FastICA()
    f.num_components, f.fun = case['k'], FUNS[case['fun']]()
    R = arr(f.transform(M(X)), 'sources', (case['n'], case['k']))
    # the reference, run the same way, decides whether these signals can be told apart
    xc = (X - X.mean(0)).T
    U, s, _ = np.linalg.svd(xc, full_matrices=False)
    X1 = ((-U / s).T[:case['k']]) @ xc * np.sqrt(case['n'])
    q = best_match(S, (ica_reference(X1, np.asarray(factory.randn(case['k'], case['k'], 1).data), case['fun'], 500, 1e-4, False) @ X1).T)
    if q < 0.97:
        return ctx.trivial('reference does not separate them either')
    require(best_match(S, R) > 0.93, 'sources are recovered with correlation %.3f only (reference: %.3f)', best_match(S, R), q)


@st.composite
def contrast_cases(draw):
    return dict(x=draw(gens.recipe((1, 4), (1, 6), ('gauss', 'int'), (-1, 0))), fun=draw(st.sampled_from(sorted(FUNS))),
                alpha=draw(st.sampled_from([None, 0.5, 1.0, 1.7])))


@sub('C22', 'contrast', lambda: contrast_cases(), 900)
def contrast(case, ctx):
    """A contrast function yields its value for every element and the mean of its derivative for every row."""
    x = gens.expand(case['x'])
    a = 1.0
    if case['fun'] == 'logcosh' and case['alpha'] is not None:
        a = case['alpha']
        f = LogCosH(a)
    else:
        f = FUNS[case['fun']]()
    m = M(x)
    g, d = f.apply(m)
    same(m.data, x, 'argument')
    wg, wd = gfun(case['fun'], a * x)
    close(arr(g, 'value', x.shape), wg, 'value', 1e-12, max(mx(wg), 1e-300))
    close(arr(d, 'derivative', (len(x), 1)).ravel(), (wd * a).mean(1), 'mean derivative', 1e-12, max(mx(wd), 1e-300))
