"""C23 single-response PLS, C24 variance constrained PLS, C25 several responses, C26 preprocessing, C27 SIMPLS,
C28 sparse PLS."""
import numpy as np
from hypothesis import strategies as st

from wai.ma.algorithm.pls import (CCARegression, DIPLS, KernelPLS, NIPALS, OPLS, PLS1, PRM, SIMPLS, SparsePLS, VCPLS)
from wai.ma.core import PreprocessingType
from wai.ma.core.matrix import factory
from wai.ma.transformation.kernel import LinearKernel, PolyKernel, RBFKernel

from .. import algs, gens, plsref
from ..engine import fail, oracle, require, sub
from ..ref import arr, close, mx, same, ordered

PREPS = ('NONE', 'CENTER', 'STANDARDIZE')


def M(a):
    return factory.create(ordered(a))


def train(alg, X, y):
    mx_, my_ = M(X), M(y)
    msg = alg.initialize(mx_, my_)
    require(msg is None and alg.is_initialised(), 'training failed: %r', msg)
    same(mx_.data, X, 'predictors after training')
    same(my_.data, y, 'response after training')
    return alg


def up_to_sign(got, want, what, tol, scale=None):
    require(got.shape == want.shape, '%s: shape %r, expected %r', what, got.shape, want.shape)
    got = got.copy()
    for j in range(want.shape[1]):
        if got[:, j] @ want[:, j] < 0:
            got[:, j] *= -1
    close(got, want, what, tol, scale)


@st.composite
def pls_cases(draw, rows=(4, 16), cols=(1, 7), algs=('PLS1',), responses=1, kinds=('gauss', 'corr', 'pos', 'spec', 'big', 'int', 'thin'),
              most=4, deep=True, far=(33, 60, 150)):
    many = draw(gens.deep()) if deep and draw(gens.seldom()) else None
    p = draw(gens.dim(*cols, 2 * cols[1], far))
    n = draw(gens.dim(max(rows[0], 4), rows[1], 40, (64, 101, 130)))
    if many:
        n, p, _ = many
    q = draw(gens.dim(1, responses, 2 * responses)) if responses > 1 else 1
    top = min(most, p, n - 2)
    A = many[2] if many else draw(gens.dim(1, top, max(top, min(2 * most, p, n - 2))))
    if many:
        kinds = ('gauss', 'corr', 'pos')
    return dict(x=draw(gens.recipe(n, p, kinds, (-1, 1))), y=draw(gens.recipe(n, q, ('gauss', 'pos', 'int', 'big'), (-1, 1))),
                link=draw(st.sampled_from([0, 0, 1, 3, 10])), A=A, prep=draw(st.sampled_from(PREPS)),
                alg=draw(st.sampled_from(algs)), z=draw(gens.recipe((1, 4), p, ('gauss', 'pos'), None)))


@oracle
def data(case):
    """Predictors, response (linked to the predictors as strongly as the case says), and new predictors."""
    X, Y, Z = gens.expand(case['x']), gens.expand(case['y']), gens.expand(case['z'])
    if case['link']:
        g = np.random.Generator(np.random.PCG64(case['y']['seed'] + 7))
        L = ((X - X.mean(0)) / max(mx(X - X.mean(0)), 1e-9)) @ g.standard_normal((X.shape[1], Y.shape[1]))
        Y = Y + case['link'] * max(mx(Y), 1e-3) * L
    Z = X.mean(0) + Z * np.maximum(X.std(0), 1e-3 * mx(X) + 1e-9)
    return X, Y, Z


def prep_type(name):
    return getattr(PreprocessingType, name)


def single(name, X, y, A, prep):
    """A trained instance of the algorithm set up such that it must agree with plain PLS, and the preprocessing that
    its definition implies (predictors, response)."""
    if name == 'DIPLS':
        alg = DIPLS()
        alg.num_components, alg.preprocessing_type = A, prep_type(prep)
        require(alg.initialize_unsupervised(M(X), M(X), M(y)) is None, 'training failed')
        both = np.vstack([X, X])
        p0 = plsref.Prep(prep, both)
        px = plsref.Chain(p0, plsref.Prep('CENTER', p0(X)))
        return alg, px, plsref.chain(y, prep, 'CENTER')
    alg = dict(PLS1=PLS1, SIMPLS=SIMPLS, NIPALS=NIPALS, KernelPLS=KernelPLS, SparsePLS=SparsePLS, PRM=PRM)[name]()
    inner = dict(NIPALS='STANDARDIZE', SparsePLS='STANDARDIZE', KernelPLS='CENTER').get(name, 'NONE')
    if name == 'KernelPLS':
        alg.kernel = LinearKernel()
    if name == 'SparsePLS':
        alg.lambda_ = 0.0
    if name == 'PRM':
        alg.C = float('inf')
    alg.num_components, alg.preprocessing_type = A, prep_type(prep)
    train(alg, X, y)
    return alg, plsref.chain(X, prep, inner), plsref.chain(y, prep, inner)


@oracle
def scale_zero(case, X, y):
    """Whether PRM's measures of scale vanish: half of the response equal (then its weights are not defined)."""
    if case['alg'] != 'PRM':
        return False
    v = plsref.chain(y, case['prep'])(y)
    return bool(np.median(np.abs(v - np.median(v))) < 1e-9 * mx(v)
                or 2 * np.unique(X, axis=0, return_counts=True)[1].max() >= len(X))


def lost_in_squares(U, v, A):
    """Whether some of the scores are so much smaller than others that the kernel matrix, which squares them, loses them."""
    norms = np.linalg.norm(plsref.pls1(U, v, A)['T'], axis=0)
    return not norms.min() >= 1e-3 * norms.max()


SINGLE = ('PLS1', 'SIMPLS', 'NIPALS', 'KernelPLS', 'SparsePLS', 'PRM', 'DIPLS')


@sub('C23', 'predictions', lambda: pls_cases(algs=SINGLE), 6000)
def single_predictions(case, ctx):
    """Predictions equal the least-squares fit within the Krylov space of the preprocessed data."""
    X, y, Z = data(case)
    if scale_zero(case, X, y):
        return ctx.trivial('half of the response equal')
    A, name, prep = case['A'], case['alg'], case['prep']
    inner = dict(NIPALS='STANDARDIZE', SparsePLS='STANDARDIZE', KernelPLS='CENTER', DIPLS='CENTER').get(name, 'NONE')
    if name == 'DIPLS' and prep == 'STANDARDIZE':
        inner = 'CENTER'

    def model(X, y):
        px, py = plsref.chain(X, prep, inner), plsref.chain(y, prep, inner)
        U, v = px(X), py(y)
        if mx(v) < 1e-9 * mx(y) or mx(U) < 1e-9 * mx(X):
            return None
        if name == 'KernelPLS' and lost_in_squares(U, v, A):
            return None
        s = U.T @ v
        b = plsref.krylov(U, v, A)
        return [b, py.undo(px(Z) @ b), s / max(mx(s), 1e-300)]

    r = plsref.stable(oracle(model), X, y)
    if r is None:
        return ctx.trivial('ill-conditioned')
    if name == 'SparsePLS' and np.abs(r[2]).min() < 1e-3:
        return ctx.trivial('a direction next to zero')
    alg, px, py = single(name, X, y, A, prep)
    b = oracle(plsref.krylov)(px(X), py(y), A)
    for a in (Z, X):
        want = py.undo(px(a) @ b)
        close(arr(alg.predict(M(a)), 'predictions', (len(a), 1)), want, '%s predictions' % name, 1e-6,
              mx(want) + mx(y) + mx(px(a)) * mx(b) * mx(py.undo(np.ones((1, 1))) - py.undo(np.zeros((1, 1)))))
    ctx.label(name, prep, 'wide' if X.shape[1] > len(X) else 'tall', '%d components' % A)


@sub('C23', 'least-squares', lambda: pls_cases(algs=SINGLE, rows=(8, 16), cols=(1, 4), deep=False), 2250)
def least_squares(case, ctx):
    """With as many components as columns the predictions are those of ordinary least squares; fewer components never
    fit the training data better than more."""
    X, y, Z = data(case)
    if scale_zero(case, X, y):
        return ctx.trivial('half of the response equal')
    name, prep = case['alg'], case['prep']
    if name == 'SparsePLS':
        name = 'NIPALS'
    p = X.shape[1]
    affine = prep != 'NONE' or name in ('NIPALS', 'KernelPLS', 'DIPLS')

    def ols(X, y):
        D = np.hstack([X, np.ones((len(X), 1))]) if affine else X
        sc = np.abs(D).max(0)
        b = np.linalg.lstsq(D / sc, y, rcond=None)[0] / sc[:, None]
        U = plsref.Prep('CENTER' if affine else 'NONE', X)(X)
        v = plsref.Prep('CENTER' if affine else 'NONE', y)(y)
        if name == 'NIPALS' or prep == 'STANDARDIZE':
            U = plsref.Prep('STANDARDIZE', U)(U)
        if name == 'KernelPLS' and lost_in_squares(U, v, p):
            return None
        return [b, plsref.krylov(U, v, p)] + [plsref.pls1(U, v, p)['beta']]

    r = plsref.stable(oracle(ols), X, y)
    if r is None:
        return ctx.trivial('ill-conditioned')
    close_ = mx(r[1] - r[2]) <= 1e-6 * mx(r[1])
    if not close_:
        return ctx.trivial('ill-conditioned')
    last = None
    for A in range(1, p + 1):
        alg, _, _ = single(name, X, y, A, prep)
        e = float(((arr(alg.predict(M(X)), 'predictions', y.shape) - y) ** 2).sum())
        require(last is None or e <= last * (1 + 1e-7) + 1e-9 * float((y ** 2).sum()),
                '%s: %d components fit the training data worse (%r) than %d (%r)', name, A, e, A - 1, last)
        last = e
    for a in (X, Z):
        D = np.hstack([a, np.ones((len(a), 1))]) if affine else a
        want = D @ r[0]
        close(arr(alg.predict(M(a)), 'predictions', (len(a), 1)), want, '%s with all components' % name, 1e-6,
              mx(want) + mx(np.abs(D) @ np.abs(r[0])))
    ctx.label(name, prep)


@sub('C23', 'scores', lambda: pls_cases(algs=('PLS1', 'SIMPLS', 'NIPALS', 'KernelPLS', 'PRM', 'DIPLS')), 3750)
def single_scores(case, ctx):
    """Transformed data are the PLS scores: orthogonal on the training data, each the projection of the preprocessed data
    on its weight; new data is mapped by the same linear map; the exposed matrices are those of the model."""
    X, y, Z = data(case)
    if scale_zero(case, X, y):
        return ctx.trivial('half of the response equal')
    A, name, prep = case['A'], case['alg'], case['prep']
    inner = dict(NIPALS='STANDARDIZE', KernelPLS='CENTER', DIPLS='CENTER').get(name, 'NONE')

    def model(X, y):
        px, py = plsref.chain(X, prep, inner), plsref.chain(y, prep, inner)
        U, v = px(X), py(y)
        if mx(v) < 1e-9 * mx(y) or mx(U) < 1e-9 * mx(X):
            return None
        m = plsref.pls1(U, v, A)
        if m['left'] < 1e-6:
            return None
        return [m['W'], m['P'], m['R'], m['b'], m['T']]

    r = plsref.stable(oracle(model), X, y)
    if r is None:
        return ctx.trivial('ill-conditioned')
    alg, px, py = single(name, X, y, A, prep)
    U, v = px(X), py(y)
    m = oracle(plsref.pls1)(U, v, A)
    T = m['T']
    G = T.T @ T
    if mx(G - np.diag(np.diag(G))) > 1e-7 * mx(G):
        return ctx.trivial('ill-conditioned')
    norms = np.linalg.norm(T, axis=0)
    if norms.min() < 1e-5 * mx(U):
        return ctx.trivial('component next to nothing')
    if name == 'KernelPLS':
        if norms.min() < 1e-3 * norms.max():        # the kernel matrix squares them
            return ctx.trivial('component next to nothing')
        Yk, cols = v.copy(), []
        for k in range(A):
            cols.append(U.T @ (Yk / np.linalg.norm(Yk)))
            t = T[:, [k]] / norms[k]
            Yk = Yk - t @ (t.T @ Yk)
            if k + 1 < A and np.linalg.norm(Yk) < 1e-5 * np.linalg.norm(v):
                return ctx.trivial('response exhausted')
        R = np.hstack(cols)
    elif name in ('SIMPLS', 'PRM'):
        R = m['R'] / norms
    elif name == 'DIPLS':
        R = m['W']
    else:
        R = m['R']
    scale = np.maximum(np.abs(U).max(), np.abs(px(Z)).max()) * np.abs(R).max(0) * X.shape[1]
    for a in (X, Z):
        got = arr(alg.transform(M(a)), 'scores', (len(a), A))
        up_to_sign(got / scale, px(a) @ R / scale, '%s scores' % name, 1e-6, 1.0)
    if name == 'PLS1':
        up_to_sign(arr(alg.get_matrix('W'), 'W'), m['W'], 'W', 1e-6)
        up_to_sign(arr(alg.get_matrix('P'), 'P') / mx(m['P']), m['P'] / mx(m['P']), 'P', 1e-6)
        up_to_sign(arr(alg.get_loadings(), 'loadings') / mx(m['P']), m['P'] / mx(m['P']), 'loadings', 1e-6)
        close(np.abs(arr(alg.get_matrix('b_hat'), 'b_hat')), np.abs(m['b']), 'b_hat', 1e-6)
        close(arr(alg.get_matrix('RegVector'), 'RegVector'), m['beta'], 'RegVector', 1e-6, mx(m['beta']) + mx(np.abs(m['R']) @ np.abs(m['b'])))
    if name == 'NIPALS':
        up_to_sign(arr(alg.get_matrix('T'), 'T') / norms, T / norms, 'T', 1e-6, 1.0)
        up_to_sign(arr(alg.get_matrix('P'), 'P'), m['P'], 'P', 1e-6)
        up_to_sign(arr(alg.get_loadings(), 'loadings'), m['P'], 'loadings', 1e-6)
        close(np.abs(arr(alg.get_matrix('Q'), 'Q')), np.abs(m['b'].T), 'Q', 1e-6)
        got_t, got_q = arr(alg.get_matrix('T'), 'T'), arr(alg.get_matrix('Q'), 'Q')
        close(got_t @ got_q.T, T @ m['b'], 'fit from scores and loadings', 1e-6, mx(v))
    if name == 'KernelPLS':
        up_to_sign(arr(alg.get_matrix('T'), 'T'), T / norms, 'T', 1e-6, 1.0)
        up_to_sign(arr(alg.get_loadings(), 'loadings'), T / norms, 'loadings', 1e-6, 1.0)
        got_t, got_q = arr(alg.get_matrix('T'), 'T'), arr(alg.get_matrix('Q'), 'Q')
        close(got_t @ got_q.T, T @ m['b'], 'fit from scores and loadings', 1e-6, mx(v))
        Kd = U @ U.T
        Pt = np.eye(len(U)) - (T / norms) @ (T / norms).T
        close(arr(alg.get_matrix('K'), 'K'), Pt @ Kd @ Pt, 'deflated kernel matrix', 1e-6, mx(Kd))
    if name == 'DIPLS':
        up_to_sign(arr(alg.get_matrix('T'), 'T') / norms, T / norms, 'T', 1e-6, 1.0)
        for w in ('Ts', 'Tt'):
            up_to_sign(arr(alg.get_matrix(w), w) / norms, T / norms, w, 1e-6, 1.0)
        for w in ('P', 'Ps', 'Pt'):
            up_to_sign(arr(alg.get_matrix(w), w), m['P'], w, 1e-6)
        up_to_sign(arr(alg.get_matrix('Wdi'), 'Wdi'), m['W'], 'Wdi', 1e-6)
        close(arr(alg.get_matrix('bdi'), 'bdi'), m['beta'], 'bdi', 1e-6, mx(m['beta']) + mx(np.abs(m['R']) @ np.abs(m['b'])))
    ctx.label(name, prep, '%d components' % A)


# ----------------------------------------------------------------------------------------- C24
@oracle
def vc_model(X, y, A, lam):
    """Variance constrained PLS: per component the dominant generalised eigenvector of
    (E'yy'E - lambda I, E'E + nu I), then deflation of E."""
    from scipy.linalg import eigh
    n, p = X.shape
    E, F = X.copy(), X.copy()
    W, P, b = np.zeros((p, A)), np.zeros((p, A)), np.zeros((A, 1))
    gap = np.inf
    for k in range(A):
        s = E.T @ y
        G1, G2 = s @ s.T - lam * np.eye(p), E.T @ E + 1e-7 * np.eye(p)
        vals, vecs = eigh(G1, G2)
        w = vecs[:, -1]
        w = w / np.linalg.norm(w)
        w = w * np.sign(w[np.argmax(np.abs(w))])
        if p > 1:
            gap = min(gap, (vals[-1] - vals[-2]) / np.abs(vals).max())
        t = E @ w[:, None]
        tt = float((t.T @ t)[0, 0])
        W[:, k], P[:, [k]] = w, E.T @ t / tt
        b[k] = (t.T @ y) / tt
        E = E - t @ P[:, [k]].T
        # the same by way of the inverse; where rounding makes a difference there is no answer to compare with
        s = F.T @ y
        v2, w2 = np.linalg.eig(np.linalg.inv(F.T @ F + 1e-7 * np.eye(p)) @ (s @ s.T - lam * np.eye(p)))
        w2 = w2[:, np.argmax(v2.real)].real
        w2 = w2 / np.linalg.norm(w2)
        if not min(mx(w2 - w), mx(w2 + w)) < 2e-6:
            return W, P, W, b, 0.0
        t = F @ w2[:, None]
        F = F - t @ (F.T @ t).T / float((t.T @ t)[0, 0])
    R = W @ np.linalg.inv(P.T @ W)
    return W, P, R, b, gap


@st.composite
def vc_cases(draw):
    c = draw(pls_cases(cols=(1, 5), most=3, kinds=('gauss', 'corr', 'pos', 'int'), rows=(6, 16), far=(33, 60)))
    c['x']['scale'] = draw(st.sampled_from([0, 0, 1, -1, -2, -3]))
    c['lam'] = draw(st.sampled_from([None, 0.1, 1.0, 0.01, 10.0, 3.0, -0.5, 1e-3, 100.0]))
    return c


@sub('C24', 'model', vc_cases, 6000)
def vcpls(case, ctx):
    """Weights are the dominant generalised eigenvectors of the variance constrained problem; scores, loadings and
    predictions follow from them by deflation."""
    X, y, Z = data(case)
    A, prep = case['A'], case['prep']
    lam = 1.0 if case['lam'] is None else case['lam']

    def model(X, y):
        px, py = plsref.chain(X, prep), plsref.chain(y, prep)
        U, v = px(X), py(y)
        if mx(v) < 1e-9 * mx(y) or mx(U) < 1e-9 * mx(X):
            return None
        W, P, R, b, gap = vc_model(U, v, A, lam)
        if gap < 1e-9:
            return None
        return [W, P, R, b, px(Z) @ R, py.undo(px(Z) @ R @ b)]

    r = plsref.stable(model, X, y, limit=1e-5)
    if r is None:
        return ctx.trivial('ill-conditioned')
    alg = VCPLS()
    alg.num_components, alg.preprocessing_type = A, prep_type(prep)
    if case['lam'] is not None:
        alg.lambda_ = lam
    train(alg, X, y)
    W, P, R, b, scores, pred = r
    tol = 1e-4
    up_to_sign(arr(alg.get_matrix('W'), 'W'), W, 'W', tol)
    up_to_sign(arr(alg.get_matrix('P'), 'P'), P, 'P', tol)
    up_to_sign(arr(alg.transform(M(Z)), 'scores'), scores, 'scores', tol, mx(scores) + mx(plsref.chain(X, prep)(Z)))
    close(arr(alg.predict(M(Z)), 'predictions', (len(Z), 1)), pred, 'predictions', tol, mx(pred) + mx(y))
    ctx.label(prep, '%d components' % A, 'lambda %s' % case['lam'])


# ----------------------------------------------------------------------------------------- C25
@oracle
def distinct_correlations(X, Y):
    """Whether the canonical correlations of the two data sets differ clearly."""
    qx, qy = np.linalg.qr(X - X.mean(0))[0], np.linalg.qr(Y - Y.mean(0))[0]
    s = np.append(np.linalg.svd(qx.T @ qy, compute_uv=False), 0.0)
    return bool(np.all(s[:-1] - s[1:] > 1e-3))


@st.composite
def multi_cases(draw, algs):
    c = draw(pls_cases(algs=algs, responses=4, rows=(8, 20), cols=(1, 6), kinds=('gauss', 'corr', 'pos', 'int', 'big', 'thin'), most=4))
    c['norm'] = draw(st.booleans())
    c['iters'] = draw(st.sampled_from([None, None, None, 0, 1, 2, 3]))
    c['tol'] = draw(st.sampled_from([None, None, 1e-2, 1e-4, 1e-6]))
    c['still'] = draw(st.sampled_from([None, None, None, None, None, [0, 'y'], [1, 'y'], [2, 'y'], [3, 'y'], [0, 'x'], [2, 'x']]))
    return c


def still_column(X, Y, which):
    """The data with one column, not the only one, of predictors or responses constant."""
    if which is not None:
        i, k = which
        X, Y = X.copy(), Y.copy()
        a = Y if k == 'y' else X
        if a.shape[1] > 1:
            i = min(i, a.shape[1] - 1)
            a[:, i] = a[0, i]
    return X, Y


@sub('C25', 'nipals', lambda: multi_cases(('NIPALS', 'NIPALS', 'canonical', 'CCA')), 4000)
def multi_nipals(case, ctx):
    """NIPALS, canonical NIPALS and CCA regression on several responses: scores, loadings, predictions and transformed
    responses equal the reference algorithm on the standardised data, also when stopped early."""
    from wai.ma.algorithm.pls import DeflationMode
    X, Y, Z = data(case)
    still = case.get('still')
    X, Y = still_column(X, Y, still)
    A, name, prep = case['A'], case['alg'], case['prep']
    q = Y.shape[1]
    if name != 'NIPALS':
        A = min(A, q - (q > 1 and still is not None and still[1] == 'y'))
    if name == 'CCA' and len(X) < X.shape[1] + q + 3:
        return ctx.trivial('too few rows')
    if name == 'CCA' and still:
        return ctx.trivial('CCA with a constant column')
    if name == 'CCA' and not distinct_correlations(X, Y):
        return ctx.trivial('coinciding canonical correlations')
    iters = case['iters']
    tol = 1e-14 if iters is None else 1e-30
    limit = 3000 if iters is None else iters
    early = iters is None and case.get('tol') is not None
    if early:       # the loop ends once the squared change of the weights falls below the tolerance
        tol = case['tol']
    mode = 'CCA' if name == 'CCA' else 'PLS'

    def model(X, Y, extra=0):
        X, Y = still_column(X, Y, still)
        px, py = plsref.chain(X, prep, 'STANDARDIZE'), plsref.chain(Y, prep, 'STANDARDIZE')
        U, V = px(X), py(Y)
        for a in (U, V):
            size = np.abs(a).max(0)
            if ((size < 1e-9) & (a[0] != a).any(0)).any() or (size < 1e-9).all():
                return None
        m = plsref.pls2(U, V, A, tol, limit, mode, case['norm'], name != 'NIPALS', extra)
        if iters is None and not m['converged']:
            return None
        if np.linalg.norm(m['T'], axis=0).min() < 1e-4 or np.linalg.norm(m['Q'], axis=0).min() < 1e-4:
            return None
        return [m['T'], m['U'], m['P'], m['Q'], py.undo(px(Z) @ m['coef']), px(Z) @ m['R'], m['C'], m['R'], m['coef']]

    r = plsref.stable(oracle(model), X, Y)
    if r is None:
        return ctx.trivial('ill-conditioned')
    alg = CCARegression() if name == 'CCA' else NIPALS()
    if name == 'canonical':
        alg.deflation_mode = DeflationMode.CANONICAL
    alg.num_components, alg.preprocessing_type, alg.norm_Y_weights = A, prep_type(prep), case['norm']
    alg.tol, alg.max_iter = tol, limit
    train(alg, X, Y)
    got = [arr(alg.get_matrix(k), k) for k in 'TUPQ']
    got += [arr(alg.predict(M(Z)), 'predictions', (len(Z), q)), arr(alg.transform(M(Z)), 'scores', (len(Z), A))]
    options = [r]
    if iters:       # a limit of n iterations: n or n + 1 passes
        r1 = plsref.stable(oracle(lambda a, b: model(a, b, -1)), X, Y)
        if r1 is not None:
            options.append(r1)
    errors = []
    for o in options:
        dev = 0.0
        for i, (g, w) in enumerate(zip(got, o)):
            if g.shape != w.shape:
                fail('shape %r, expected %r', g.shape, w.shape)
            if i != 4:
                sgn = np.sign((got[0] * o[0]).sum(0)) if len(g) else 1.0
                g = g * sgn
            scale = mx(w) + (mx(Y) if i == 4 else 0.0) + (mx(o[7]) * mx(plsref.chain(X, prep, 'STANDARDIZE')(Z)) if i == 5 else 0.0)
            dev = max(dev, mx(g - w) / max(scale, 1e-300))
        errors.append(dev)
    require(min(errors) <= 1e-5, '%s differs from the reference: %r', name, errors)
    same(arr(alg.get_loadings(), 'loadings'), got[2], 'loadings')
    if prep == 'NONE' and A <= q:
        # scores of responses: of the training responses they are the scores U, up to the length of the weights
        V = plsref.chain(Y, 'NONE', 'STANDARDIZE')(Y)
        g = arr(alg.do_transform_response(M(Y)), 'scores of the response', (len(Y), A))
        if q == 1:
            close(g, V, 'scores of a single response', 1e-9)
        else:
            o = options[int(np.argmin(errors))]
            k = o[3].T @ o[6]
            if np.linalg.cond(k) < 1e4:
                w = V @ o[6] @ np.linalg.inv(k)
                sgn = np.sign((g * w).sum(0))
                close(g * sgn, w, 'scores of the response', 1e-4)
                if name != 'NIPALS':
                    up_to_sign(g / np.linalg.norm(g, axis=0), got[1] / np.linalg.norm(got[1], axis=0), 'scores of the response and U', 1e-4, 1.0)
                ctx.label('response scores')
    ctx.label(name, prep, '%d responses' % q, '%d components' % A, 'limited' if iters is not None else 'tolerance' if early else 'converged')


@sub('C25', 'library', lambda: multi_cases(('PLSRegression', 'PLSCanonical', 'CCA', 'kernel')), 1920)
def multi_library(case, ctx):
    """The same predictions and scores as scikit-learn's PLSRegression, PLSCanonical and CCA; kernel PLS with a linear
    kernel equals PLSRegression without scaling."""
    from sklearn import cross_decomposition as sk
    from wai.ma.algorithm.pls import DeflationMode
    X, Y, Z = data(case)
    A, name = case['A'], case['alg']
    q = Y.shape[1]
    if name in ('PLSCanonical', 'CCA'):
        A = min(A, q)
    if name == 'CCA' and len(X) < X.shape[1] + q + 3:
        return ctx.trivial('too few rows')
    if name == 'CCA' and not distinct_correlations(X, Y):
        return ctx.trivial('coinciding canonical correlations')
    if min(len(set(c)) for c in np.hstack([X, Y]).T.tolist()) < 2:
        return ctx.trivial('constant column')

    def model(X, Y):
        cls = sk.PLSRegression if name == 'kernel' else getattr(sk, name)
        m = cls(n_components=A, scale=name != 'kernel', tol=1e-14, max_iter=3000)
        m.fit(X, Y)
        if max(m.n_iter_) >= 2999:
            return None
        T = m.transform(X)
        return [m.predict(Z).reshape(len(Z), q), T / np.linalg.norm(T, axis=0) * np.sign(T[0])]

    r = plsref.stable(oracle(model), X, Y)
    if r is None:
        return ctx.trivial('ill-conditioned')
    if name == 'kernel':
        alg = KernelPLS()
        alg.kernel = LinearKernel()
        alg.tol, alg.max_iter = 1e-10, 5000
    else:
        alg = CCARegression() if name == 'CCA' else NIPALS()
        if name == 'PLSCanonical':
            alg.deflation_mode = DeflationMode.CANONICAL
        alg.tol, alg.max_iter, alg.norm_Y_weights = 1e-14, 3000, name != 'PLSRegression'
    alg.num_components = A
    train(alg, X, Y)
    close(arr(alg.predict(M(Z)), 'predictions', (len(Z), q)), r[0], '%s predictions' % name, 1e-5, mx(r[0]) + mx(Y))
    if name != 'kernel':
        T = arr(alg.transform(M(X)), 'scores', (len(X), A))
        close(T / np.linalg.norm(T, axis=0) * np.sign(T[0]), r[1], '%s scores' % name, 1e-5)
    ctx.label(name, '%d responses' % q, '%d components' % A)


@st.composite
def kernel_cases(draw):
    c = draw(pls_cases(responses=3, rows=(5, 14), cols=(1, 5), kinds=('gauss', 'corr', 'pos', 'int'), most=3))
    c['kernel'] = draw(st.sampled_from(['rbf', 'poly', 'linear', 'default']))
    c['gamma'] = draw(st.sampled_from([None, 0.1, 0.5, 1.0]))
    return c


def kernel_table(case, a, b=None):
    """The kernel matrix as the code under test computes it (C17 decides whether it is right)."""
    return kernel_array(make_kernel(case), a, b)


def kernel_array(k, a, b=None):
    try:
        got = k.apply_matrix(M(a)) if b is None else k.apply_matrix(M(a), M(b))
    except Exception as e:
        fail('kernel matrix: %r' % (e,))
    return arr(got, 'kernel matrix', (len(a), len(a if b is None else b)), finite=False)


def make_kernel(case):
    k = dict(rbf=RBFKernel, poly=PolyKernel, linear=LinearKernel, default=RBFKernel)[case['kernel']]()
    if case['kernel'] in ('rbf', 'poly') and case['gamma'] is not None:
        k.gamma = case['gamma']
    return k


@sub('C25', 'kernel', kernel_cases, 2400)
def multi_kernel(case, ctx):
    """Kernel PLS for any kernel: unit scores are the dominant directions of the deflated kernel matrix and responses,
    predictions follow from them (new data is centred in feature space as recorded in the findings)."""
    X, Y, Z = data(case)
    A, prep = case['A'], case['prep']
    q = Y.shape[1]

    def model(X, Y):
        px, py = plsref.chain(X, prep, 'CENTER'), plsref.chain(Y, prep, 'CENTER')
        U, V, Zc = px(X), py(Y), px(Z)
        n = len(X)
        K0 = kernel_table(case, U)
        Kt = kernel_table(case, Zc, U)
        J = np.eye(n) - np.ones((n, n)) / n
        K = J @ K0 @ J
        K = (K + K.T) / 2
        D, V0 = K.copy(), V.copy()
        T, UU, Q = np.zeros((n, A)), np.zeros((n, A)), np.zeros((q, A))
        for k in range(A):
            H = V0.T @ D @ V0
            vals, vecs = np.linalg.eigh((H + H.T) / 2)
            if vals[-1] <= 1e-9 * max(mx(K), 1e-300) * mx(V) ** 2 or (q > 1 and vals[-2] > 0.8 * vals[-1]):
                return None
            u = V0 @ vecs[:, [-1]]
            u = u / np.linalg.norm(u)
            t = D @ u
            t = t / np.linalg.norm(t)
            s = np.sign(t[np.argmax(np.abs(t))])
            t, u = t * s, u * s
            c = V0.T @ t
            T[:, [k]], UU[:, [k]], Q[:, [k]] = t, u, c
            Pt = np.eye(n) - t @ t.T
            D = Pt @ D @ Pt
            V0 = V0 - t @ c.T
            if np.linalg.norm(V0) < 1e-5 * np.linalg.norm(V) and k + 1 < A:
                return None
        B = np.linalg.inv(T.T @ K @ UU) @ Q.T
        S1 = Kt @ J @ UU
        S2 = (Kt - np.ones((len(Z), 1)) @ K0.mean(0, keepdims=True)) @ J @ UU
        return [T, UU, Q, D, S1, py.undo(S1 @ B), S2, py.undo(S2 @ B), K]

    r = plsref.stable(oracle(model), X, Y)
    if r is None:
        return ctx.trivial('ill-conditioned')
    alg = KernelPLS()
    if case['kernel'] != 'default':
        alg.kernel = make_kernel(case)
    alg.tol, alg.max_iter = 1e-11, 5000
    alg.num_components, alg.preprocessing_type = A, prep_type(prep)
    train(alg, X, Y)
    T, UU, Q, D, S1, P1, S2, P2, K = r
    up_to_sign(arr(alg.get_matrix('T'), 'T'), T, 'T', 1e-5, 1.0)
    up_to_sign(arr(alg.get_matrix('U'), 'U'), UU, 'U', 1e-5, 1.0)
    close(arr(alg.get_matrix('T'), 'T') @ arr(alg.get_matrix('Q'), 'Q').T, T @ Q.T, 'fit', 1e-5)
    close(arr(alg.get_matrix('K'), 'K'), D, 'deflated kernel matrix', 1e-5, mx(K))
    got_s, got_p = arr(alg.transform(M(Z)), 'scores', S1.shape), arr(alg.predict(M(Z)), 'predictions', P1.shape)
    sc = mx(S1) + mx(S2) + mx(K)
    sgn = np.sign((arr(alg.get_matrix('T'), 'T') * T).sum(0))
    right = mx(got_s * sgn - S2) <= 1e-5 * sc and mx(got_p - P2) <= 1e-5 * (mx(P2) + mx(Y))
    if not right:
        close(got_s * sgn, S1, 'scores', 1e-5, sc)
        close(got_p, P1, 'predictions', 1e-5, mx(P1) + mx(Y))
        ctx.finding('kernelpls-new-data-centred-with-centred-kernel')
        ctx.label('feature space centring matters')
    ctx.label(case['kernel'], prep, '%d responses' % q, '%d components' % A)


@st.composite
def loop_cases(draw):
    c = draw(kernel_cases())
    c['tol'] = draw(st.sampled_from([1e-1, 1e-2, 1e-4, 1e-6]))
    c['most'] = draw(st.integers(1, 5))
    return c


@sub('C25', 'kernel-loop', loop_cases, 500)
def kernel_loop(case, ctx):
    """Every pass of the loop of kernel PLS is t ~ K u followed by u ~ Y Y't; there are as many passes as the limit allows
    or as it takes until the change of u falls to the tolerance."""
    X, Y, Z = data(case)
    U, V = plsref.Prep('CENTER', X)(X), plsref.Prep('CENTER', Y)(Y)
    n = len(X)
    J = np.eye(n) - np.ones((n, n)) / n
    K = J @ kernel_table(case, U) @ J

    def loop(limit, tol):
        alg = KernelPLS()
        alg.kernel = make_kernel(case)
        alg.num_components, alg.tol, alg.max_iter = 1, tol, limit
        try:
            train(alg, X, Y)
        except (KeyboardInterrupt, MemoryError):
            raise
        except Exception:
            return None
        return np.array(alg.get_matrix('T').data, dtype=float), np.array(alg.get_matrix('U').data, dtype=float)

    passes = [loop(k, 0.0) for k in range(1, case['most'] + 2)]
    require(passes[0] is not None or loop(1, 1e-300) is None, 'training fails with a tolerance of zero, not with one of 1e-300')
    if any(r is None or not np.all(np.isfinite(r[0])) or not np.all(np.isfinite(r[1])) for r in passes):
        return ctx.trivial('degenerate')
    for k, (t, u) in enumerate(passes):
        w = V @ (V.T @ t)
        if np.linalg.norm(w) < 1e-6 * np.linalg.norm(V) ** 2 or np.linalg.norm(K @ u) < 1e-6 * np.linalg.norm(K):
            return ctx.trivial('degenerate')
        close(u, w / np.linalg.norm(w), 'U after %d passes' % (k + 1), 1e-6, 1.0)
        if k:
            w = K @ passes[k - 1][1]
            close(t, w / np.linalg.norm(w), 'T after %d passes' % (k + 1), 1e-6, 1.0)
    tol = case['tol']
    change = [float(np.linalg.norm(b[1] - a[1])) for a, b in zip(passes, passes[1:])]
    if any(abs(c - tol) < 1e-3 * tol for c in change):
        return ctx.trivial('change equals the tolerance')
    stop = [k + 1 for k, c in enumerate(change) if c <= tol]
    got = loop(len(passes), tol)
    want = passes[stop[0] if stop else -1]
    for g, w, what in zip(got, want, 'TU'):
        close(g, w, '%s with tolerance %g' % (what, tol), 1e-9, 1.0)
    ctx.label('%d passes' % ((stop[0] if stop else len(passes) - 1) + 1), '%d responses' % V.shape[1])


# ----------------------------------------------------------------------------------------- C26
@st.composite
def setup_cases(draw, names=tuple(algs.CLASSES), rows=(5, 18), cols=(2, 5), most=3, kinds=('gauss', 'corr', 'pos', 'big', 'const')):
    d = draw(algs.setups(names))
    c = draw(pls_cases(rows=rows, cols=cols, most=most, kinds=kinds, deep=False, responses=3 if d['alg'] in algs.MULTI else 1))
    c['setup'] = d
    if d['alg'] == 'OPLS':      # there are no more directions orthogonal to the response
        c['A'] = min(c['A'], c['x']['c'] - 1)
        d['base_components'] = min(d['base_components'], c['x']['c'] - c['A'])
    return c


def columns_aligned(got, want):
    got = got.copy()
    for j in range(want.shape[1]):
        if got[:, j] @ want[:, j] < 0:
            got[:, j] *= -1
    return got


def outputs(alg, Z):
    p = np.array(alg.predict(M(Z)).data, dtype=float)
    t = np.array(alg.transform(M(Z)).data, dtype=float)
    return p, t


def well_behaved(d, A, U, V, Z, prep='NONE'):
    """Outputs of an instance trained without preprocessing on U, V - or None if training on data changed in the tenth
    digit gives something else (an ill-conditioned problem) or it does not come to finite numbers."""
    out = []
    try:
        if d['alg'] == 'VCPLS' and vc_model(plsref.Prep(prep, U)(U), plsref.Prep(prep, V)(V), A, d['lambda_'])[4] < 1e-8:
            return None
        if d['alg'] == 'OPLS' and A + d['base_components'] > np.linalg.matrix_rank(plsref.Prep(prep, U)(U), rtol=1e-8):
            return None     # orthogonal directions of rounding
        for k in range(2):
            a, b = (U, V) if k == 0 else (plsref.perturbed(U, 0), plsref.perturbed(V, 1))
            alg = algs.make(d, A, prep)
            if algs.fit(d, alg, a, b) is not None:
                return None
            out.append(outputs(alg, Z))
    except Exception:
        return None
    (p0, t0), (p1, t1) = out
    for a, b, s in ((p0, p1, mx(p0) + mx(V)), (t0, columns_aligned(t1, t0), mx(t0))):
        if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))) or mx(a - b) > 1e-6 * s:
            return None
    # SparsePLS deflates the rows given to transform by themselves: nothing but rounding is left of few rows
    if d['alg'] == 'SparsePLS' and np.linalg.norm(t0, axis=0).min() < 1e-6 * mx(t0):
        return None
    return p0, t0


@sub('C26', 'equivalence', setup_cases, 4200)
def preprocessing(case, ctx):
    """Training with a preprocessing type equals centring/standardising by hand with the statistics of the training data,
    training without preprocessing, and undoing the response's preprocessing on the predictions."""
    X, Y, Z = data(case)
    d, A = case['setup'], case['A']
    prep = case['prep']
    lab = algs.labelled(d, len(X))
    px, py = plsref.Prep(prep, X), plsref.Prep(prep, Y[:lab])
    U, V = px(X), py(Y)
    if prep == 'STANDARDIZE' and (Y[:lab].std(0) < 1e-6 * np.abs(Y).max(0)).any():
        return ctx.trivial('constant response')
    ref = well_behaved(d, A, U, V, px(Z))
    if ref is None:
        return ctx.trivial('ill-conditioned')
    alg = algs.trained(d, A, X, Y, prep)
    p = arr(alg.predict(M(Z)), 'predictions', ref[0].shape)
    want = py.undo(ref[0])
    tol = 1e-4 if d['alg'] == 'VCPLS' else 1e-5
    close(p, want, '%s predictions' % d['alg'], tol, mx(want) + mx(Y))
    t = arr(alg.transform(M(Z)), 'transformed', ref[1].shape)
    up_to_sign(t, ref[1], '%s transformed data' % d['alg'], tol)
    ctx.label(d['alg'], prep, '%d responses' % Y.shape[1])
    if prep == 'NONE':
        ctx.trivial('no preprocessing')


# ----------------------------------------------------------------------------------------- C27
@st.composite
def slim_cases(draw):
    c = draw(pls_cases(cols=(2, 7)))
    c['num'] = draw(st.sampled_from([0, 0, -1, 1, 2, 3, 4, 9, c['x']['c'] // 2, c['x']['c'] - 1, c['x']['c'] - 2]))
    return c


@sub('C27', 'model', slim_cases, 5000)
def simpls_model(case, ctx):
    """SIMPLS weights give orthonormal scores of the training data, the coefficients are weights times the responses'
    projection on them; limiting the number of coefficients zeroes the smallest entries of every weight vector and leaves
    the others as they are; scores and predictions use the limited weights."""
    X, y, Z = data(case)
    A, prep, num = case['A'], case['prep'], case['num']

    def model(X, y):
        px, py = plsref.chain(X, prep), plsref.chain(y, prep)
        U, v = px(X), py(y)
        if mx(v) < 1e-9 * mx(y) or mx(U) < 1e-9 * mx(X):
            return None
        m = plsref.simpls(U, v, A)
        if m['left'] < 1e-6:        # nothing left to explain: the weights are arbitrary
            return None
        return [m['W'] / np.abs(m['W']).max(0), m['Q'], m['B'], m['W']]

    r = plsref.stable(oracle(model), X, y)
    if r is None:
        return ctx.trivial('ill-conditioned')
    Wn, Q, B, W = r
    px, py = plsref.chain(X, prep), plsref.chain(y, prep)
    alg = SIMPLS()
    alg.num_components, alg.preprocessing_type, alg.num_coefficients = A, prep_type(prep), num
    train(alg, X, y)
    scale = np.abs(W).max(0)
    got = arr(alg.get_matrix('W'), 'W', W.shape)
    gq = arr(alg.get_matrix('Q'), 'Q', (1, A))
    same(arr(alg.get_loadings(), 'loadings'), got, 'loadings')
    close(np.abs(gq), np.abs(Q), 'Q', 1e-6, mx(py(y)) * np.sqrt(len(y)))
    sgn = np.where((got * W).sum(0) < 0, -1.0, 1.0)
    if num > 0:
        mag = np.sort(np.abs(Wn), axis=0)
        p = len(W)
        for j in range(A):
            nz = got[:, j] != 0
            for keep in (num, num + 1):
                if keep < p and mag[p - keep, j] - mag[p - keep - 1, j] < 1e-4:
                    return ctx.trivial('coefficients of equal size')
            want = min(num, p)
            if nz.sum() == min(num + 1, p) != want:
                ctx.finding('simpls-keeps-one-coefficient-more')
                want = min(num + 1, p)
            require(nz.sum() == want, 'component %d keeps %d coefficients, limit %d', j, nz.sum(), num)
            require(want == p or np.abs(Wn[nz, j]).min() > np.abs(Wn[~nz, j]).max(), 'component %d drops the wrong coefficients', j)
        W = np.where(got != 0, W, 0.0)
        ctx.label('limited')
    close(got * sgn / scale, W / scale, 'W', 1e-6, 1.0)
    gb = arr(alg.get_matrix('B'), 'B', B.shape)
    close(gb, W @ (Q * 1.0).T, 'B', 1e-6, mx(np.abs(W) @ np.abs(Q.T)))
    if num <= 0:
        T = px(X) @ got
        close(T.T @ T, np.eye(A), 'orthonormal scores', 1e-6)
    for a in (Z, X):
        u = px(a)
        close(arr(alg.transform(M(a)), 'scores', (len(a), A)), u @ got, 'transform', 1e-9, mx(np.abs(u) @ np.abs(got)))
        want = py.undo(u @ gb)
        close(arr(alg.predict(M(a)), 'predictions', (len(a), 1)), want, 'predict', 1e-9, mx(py.undo(np.abs(u) @ np.abs(gb))) + mx(y))
    ctx.label(prep, '%d components' % A)


# ----------------------------------------------------------------------------------------- C28
@st.composite
def sparse_cases(draw):
    c = draw(pls_cases(cols=(1, 7), rows=(8, 18), kinds=('gauss', 'corr', 'pos', 'big', 'int')))
    c['lam'] = draw(st.sampled_from([None, 0.0, 0.2, 0.4, 0.6, 0.8, 0.9, 0.99, 0.999]))
    return c


@oracle
def sparse_model(U, v, A, lam):
    """Sparse PLS on standardised data: coefficients, selected columns, directions; None if a selection is a close call."""
    p = U.shape[1]
    B = np.zeros((p, 1))
    yj = v.copy()
    W = np.zeros((p, A))
    sel = []
    for k in range(A):
        z = (U.T @ yj).ravel()
        med = np.median(np.abs(z))
        top = np.abs(z).max()
        if med < 1e-7 * np.linalg.norm(U) * np.linalg.norm(v) or top <= 0:
            return None
        z = z / med
        a = np.abs(z)
        if lam > 0 and np.abs(a / a.max() - lam).min() < 1e-6:
            return None
        c = np.where(a >= lam * a.max(), np.sign(z) * (a - lam * a.max()), 0.0)
        w = c / (c @ c)
        nz = np.abs(w[w != 0])
        nb = np.abs(B[B != 0])
        if nz.min() < 1e-5 or (len(nb) and nb.min() < 1e-5):
            return None
        W[:, k] = w
        sel = sorted(set(np.nonzero(w)[0]) | set(np.nonzero(B.ravel())[0]))
        XA = U[:, sel]
        m = plsref.pls1(plsref.Prep('STANDARDIZE', XA)(XA), plsref.Prep('STANDARDIZE', v)(v), min(len(sel), k + 1))
        B = np.zeros((p, 1))
        B[sel] = m['beta']
        yj = v - U @ B
    return B, W, np.array(sel)


@sub('C28', 'model', sparse_cases, 5000)
def sparse_pls(case, ctx):
    """Selected columns are those whose covariance with the residual response exceeds lambda times the largest, joined with
    those selected before; the coefficients are those of PLS on the selected columns; other columns have none and do not
    influence predictions."""
    X, y, Z = data(case)
    A, prep = case['A'], case['prep']
    lam = 0.5 if case['lam'] is None else case['lam']

    def model(X, y):
        px, py = plsref.chain(X, prep, 'STANDARDIZE'), plsref.chain(y, prep, 'STANDARDIZE')
        U, v = px(X), py(y)
        if np.abs(U).max(0).min() < 1e-9 or mx(v) < 1e-9:
            return None
        m = sparse_model(U, v, A, lam)
        if m is None:
            return None
        return [m[0], m[1], np.isin(np.arange(X.shape[1]), m[2]).astype(float), py.undo(px(Z) @ m[0])]

    r = plsref.stable(oracle(model), X, y)
    if r is None:
        return ctx.trivial('ill-conditioned or a close selection')
    B, W, sel, pred = r
    alg = SparsePLS()
    alg.num_components, alg.preprocessing_type = A, prep_type(prep)
    if case['lam'] is not None:
        alg.lambda_ = lam
    train(alg, X, y)
    got = arr(alg.get_matrix('B'), 'B', B.shape)
    require(((got != 0).ravel() <= (sel > 0)).all(), 'selected columns %r, expected %r', np.nonzero(got)[0].tolist(), np.nonzero(sel)[0].tolist())
    close(got, B, 'B', 1e-6, mx(B) + 1e-3)
    close(arr(alg.get_matrix('W'), 'W', W.shape), W, 'directions', 1e-6)
    same(arr(alg.get_loadings(), 'loadings'), alg.get_matrix('W').data, 'loadings')
    close(arr(alg.predict(M(Z)), 'predictions', (len(Z), 1)), pred, 'predictions', 1e-6, mx(pred) + mx(y))
    if not sel.all():
        Z2 = Z + (sel == 0) * (1.0 + mx(Z)) * np.arange(1, len(Z) + 1)[:, None]
        close(arr(alg.predict(M(Z2)), 'predictions', (len(Z), 1)), arr(alg.predict(M(Z)), 'p'), 'influence of columns not selected', 1e-12)
        ctx.label('sparse')
    # transform: deflates the given rows by their own loadings (recorded finding: neither standardised nor row by row)
    for a in (X, Z):
        E = plsref.chain(X, prep)(a)
        T = np.zeros((len(a), A))
        ok = True
        for k in range(A):
            t = E @ W[:, [k]]
            if np.linalg.norm(t) < 1e-6 * mx(W[:, k]) * (mx(E) + 1e-300):
                ok = False
                break
            T[:, [k]] = t
            E = E - t @ (t.T @ E) / float((t.T @ t)[0, 0])
        if ok and mx(E) > 1e-4 * mx(plsref.chain(X, prep)(a)):
            close(arr(alg.transform(M(a)), 'transformed', T.shape), T, 'transformed', 1e-5, mx(T))
            ctx.label('transform')
    ctx.finding('sparsepls-transform-depends-on-batch')
    ctx.label(prep, '%d components' % A)
