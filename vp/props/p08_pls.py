"""C29 OPLS, C30 domain-invariant PLS, C31 partial robust M-regression."""
import numpy as np
from hypothesis import strategies as st

from wai.ma.algorithm.pls import DIPLS, NIPALS, OPLS, PLS1, PRM, SIMPLS
from wai.ma.core import PreprocessingType

from .. import gens, plsref
from ..algs import M
from ..engine import fail, oracle, require, sub
from ..ref import arr, close, mx, same

PREPS = ('NONE', 'CENTER', 'STANDARDIZE')


def prep_type(name):
    return getattr(PreprocessingType, name)


@oracle
def linked(X, y, case):
    g = np.random.Generator(np.random.PCG64(case['y']['seed'] + 7))
    L = ((X - X.mean(0)) / max(mx(X - X.mean(0)), 1e-9)) @ g.standard_normal((X.shape[1], 1))
    return y + case['link'] * max(mx(y), 1e-3) * L


def up_to_sign(got, want, what, tol, scale=None):
    require(got.shape == want.shape, '%s: shape %r, expected %r', what, got.shape, want.shape)
    got = got.copy()
    for j in range(want.shape[1]):
        if got[:, j] @ want[:, j] < 0:
            got[:, j] *= -1
    close(got, want, what, tol, scale)


@st.composite
def base_cases(draw, rows=(8, 16), cols=(2, 7), kinds=('gauss', 'corr', 'pos', 'int', 'big'), most=3):
    p = draw(gens.dim(*cols, 2 * cols[1], (33, 60, 150)))
    n = draw(gens.dim(*rows, 40, (64, 101, 130)))
    many = draw(gens.deep(9)) if most > 1 and draw(gens.seldom()) else None
    if many:
        n, p, _ = many
    top = max(1, min(most, p - 1))
    return dict(x=draw(gens.recipe(n, p, kinds, (-1, 1))), y=draw(gens.recipe(n, 1, ('gauss', 'pos', 'int'), (-1, 1))),
                link=draw(st.sampled_from([0, 1, 3, 10])), A=many[2] if many else draw(gens.dim(1, top, max(top, min(2 * most, p - 1)) if most > 1 else 1)),
                prep=draw(st.sampled_from(PREPS)), z=draw(gens.recipe((1, 4), p, ('gauss', 'pos'), None)))


@oracle
def data(case):
    X, y, Z = gens.expand(case['x']), gens.expand(case['y']), gens.expand(case['z'])
    y = linked(X, y, case)
    return X, y, X.mean(0) + Z * np.maximum(X.std(0), 1e-3 * mx(X) + 1e-9)


# ----------------------------------------------------------------------------------------- C29
@st.composite
def opls_cases(draw):
    c = draw(base_cases(rows=draw(st.sampled_from([(8, 16), (8, 16), (4, 7)])), kinds=('gauss', 'corr', 'pos', 'int', 'big', 'mirror')))
    c['before'] = draw(st.sampled_from(['', '', 'base', 'all']))
    c['base'] = draw(st.sampled_from(['default', 'PLS1', 'SIMPLS', 'NIPALS']))
    c['basek'] = draw(st.sampled_from([1, 1, 2]))
    return c


@oracle
def opls_model(X, y, A):
    """Orthogonal signal correction: weights, loadings and scores of the components orthogonal to the response."""
    E = X.copy()
    w = E.T @ y
    w = w / np.linalg.norm(w)
    W, P, T = [], [], []
    for _ in range(A):
        t = E @ w
        p = E.T @ t / float((t.T @ t)[0, 0])
        wo = p - w * float((w.T @ p)[0, 0])
        if np.linalg.norm(wo) < 1e-4 * np.linalg.norm(p):
            return None
        wo = wo / np.linalg.norm(wo)
        to = E @ wo
        if np.linalg.norm(to) < 1e-4 * np.linalg.norm(X):
            return None
        po = E.T @ to / float((to.T @ to)[0, 0])
        E = E - to @ po.T
        W.append(wo)
        P.append(po)
        T.append(to)
    return np.hstack(W), np.hstack(P), np.hstack(T)


@sub('C29', 'model', opls_cases, 5000)
def opls(case, ctx):
    """Removed components have scores orthogonal to the response, computed from the preprocessed data; transforming
    subtracts them, and the base PLS trained on the transformed data and the response makes the predictions."""
    X, y, Z = data(case)
    A, prep = case['A'], case['prep']

    def model(X, y):
        px, py = plsref.Prep(prep, X), plsref.Prep(prep, y)
        U, v = px(X), py(y)
        if mx(v) < 1e-9 * mx(y):
            return None
        m = opls_model(U, v, A)
        if m is None:
            return None
        W, P, T = m

        def one_by_one(a):
            for k in range(A):
                a = a - (a @ W[:, [k]]) @ P[:, [k]].T
            return a

        out = [W, P, T]
        for clean in (lambda a: a - (a @ W) @ P.T, one_by_one):
            Uc = clean(U)
            inner = 'STANDARDIZE' if case['base'] == 'NIPALS' else 'NONE'
            bx, by = plsref.Prep(inner, Uc), plsref.Prep(inner, v)
            if inner == 'STANDARDIZE' and Uc.std(0).min() < 1e-5 * mx(U):
                return None
            if np.linalg.matrix_rank(bx(Uc), tol=1e-4 * mx(bx(Uc))) < case['basek']:
                return None
            b = plsref.krylov(bx(Uc), by(v), case['basek'])
            out += [clean(px(Z)), py.undo(by.undo(bx(clean(px(Z))) @ b))]
        return out

    r = plsref.stable(oracle(model), X, y)
    if r is None:
        return ctx.trivial('ill-conditioned')
    W, P, T, clean, pred, seq, seqpred = r
    alg = OPLS()
    if case['base'] == 'default':
        base = alg.base_PLS
        require(isinstance(base, PLS1), 'default base PLS is %r', type(base))
    else:
        base = dict(PLS1=PLS1, SIMPLS=SIMPLS, NIPALS=NIPALS)[case['base']]()
        alg.base_PLS = base
    base.num_components = case['basek']
    alg.num_components, alg.preprocessing_type = A, prep_type(prep)
    if case['before']:      # the base PLS (or all) has been trained on other data
        who = base if case['before'] == 'base' else alg
        require(who.initialize(M(X[::-1] * 1.5 + mx(X) * (np.arange(len(X))[:, None] % 3)), M(y)) is None, 'training failed')
        ctx.label('trained before: ' + case['before'])
    a, b = M(X), M(y)
    msg = alg.initialize(a, b)
    require(msg is None and alg.is_initialised(), 'training failed: %r', msg)
    same(a.data, X, 'predictors')
    same(b.data, y, 'response')
    up_to_sign(arr(alg.get_matrix('W_orth'), 'W_orth'), W, 'W_orth', 1e-6)
    up_to_sign(arr(alg.get_matrix('P_orth'), 'P_orth'), P, 'P_orth', 1e-6)
    up_to_sign(arr(alg.get_loadings(), 'loadings'), P, 'loadings', 1e-6)
    got = arr(alg.get_matrix('T_orth'), 'T_orth')
    up_to_sign(got, T, 'T_orth', 1e-6)
    v = plsref.Prep(prep, y)(y)
    close(got.T @ v, np.zeros((A, 1)), 'removed scores are orthogonal to the response', 1e-7, np.linalg.norm(v) * np.linalg.norm(T))
    close(got.T @ got, np.diag(np.diag(T.T @ T)), 'removed scores are orthogonal to each other', 1e-6, mx(T.T @ T))
    t = arr(alg.transform(M(Z)), 'transformed', Z.shape)
    sc = mx(plsref.Prep(prep, X)(Z)) + mx(clean)
    if A > 1 and mx(seq - clean) > 1e-4 * sc:
        if mx(t - seq) <= 1e-6 * sc:
            clean, pred = seq, seqpred
        else:
            ctx.finding('opls-transform-not-sequential')
    close(t, clean, 'transformed', 1e-6, sc)
    close(arr(alg.predict(M(Z)), 'predictions', (len(Z), 1)), pred, 'predictions', 1e-6, mx(pred) + mx(y))
    close(arr(alg.predict(M(Z)), 'p'), plsref.Prep(prep, y).undo(arr(base.predict(M(t)), 'base')), 'predictions of the base PLS', 1e-9, mx(pred) + mx(y))
    ctx.label(prep, case['base'], '%d components' % A)


@sub('C29', 'two-components', lambda: base_cases(most=1), 1600)
def opls_equals_pls(case, ctx):
    """Removing one orthogonal component and fitting one component of the base PLS predicts the same as PLS with two."""
    X, y, Z = data(case)
    prep = case['prep']

    def model(X, y):
        px, py = plsref.Prep(prep, X), plsref.Prep(prep, y)
        U, v = px(X), py(y)
        m = opls_model(U, v, 1)
        if mx(v) < 1e-9 * mx(y) or m is None:
            return None
        b = plsref.krylov(U, v, 2)
        return [b, py.undo(px(Z) @ b), plsref.pls1(U, v, 2)['beta']]

    r = plsref.stable(oracle(model), X, y)
    if r is None:
        return ctx.trivial('ill-conditioned')
    alg = OPLS()
    alg.base_PLS.num_components = 1
    alg.num_components, alg.preprocessing_type = 1, prep_type(prep)
    require(alg.initialize(M(X), M(y)) is None, 'training failed')
    close(arr(alg.predict(M(Z)), 'predictions', (len(Z), 1)), r[1], 'predictions', 1e-5, mx(r[1]) + mx(y))
    ctx.label(prep)


@sub('C29', 'rejects', lambda: base_cases(most=1), 300)
def opls_rejects(case, ctx):
    """Where the base PLS refuses to be trained, or there is no single response, OPLS reports that and stays untrained."""
    X, y, _ = data(case)
    for base, resp in ((DIPLS(), y), (PLS1(), np.hstack([y, y]))):
        alg = OPLS()
        base.num_components = alg.num_components = 1
        alg.base_PLS = base
        msg = alg.initialize(M(X), M(resp))
        require(isinstance(msg, str) and msg, 'training accepted: %r', msg)
        require(not alg.is_initialised(), 'trained after an error')
        try:
            alg.predict(M(X))
        except RuntimeError:
            pass
        else:
            fail('an untrained model predicts')


# ----------------------------------------------------------------------------------------- C30
@st.composite
def dipls_cases(draw):
    p = draw(gens.dim(1, 6, 12, (20,)))
    sizes = [draw(gens.dim(2, 11, 40, (64, 101))) for _ in range(3)]
    kinds = ('gauss', 'corr', 'pos', 'int')
    return dict(mode=draw(st.sampled_from(['unsupervised', 'supervised', 'semisupervised'])), sizes=sizes,
                x=draw(gens.recipe(sum(sizes), p, kinds, (-1, 1))), y=draw(gens.recipe(sum(sizes), 1, ('gauss', 'pos', 'int'), (-1, 1))),
                link=draw(st.sampled_from([0, 1, 3])), gain=draw(st.sampled_from([1.0, 1.3, 0.7])), off=draw(st.sampled_from([0.0, 0.5, -1.0])),
                A=draw(gens.dim(1, min(3, p), min(6, p))), prep=draw(st.sampled_from(PREPS)),
                lam=draw(st.sampled_from([None, 1.0, 0.1, 10.0, 1e-3, 100.0, -1.0, -10.0])), z=draw(gens.recipe((1, 4), p, ('gauss', 'pos'), None)))


@oracle
def dipls_model(Xl, Xs, Xt, y, A, lam, ns, nt):
    """Domain-invariant PLS: labelled data, source and target predictors, response."""
    E, Es, Et = Xl - Xl.mean(0), Xs - Xs.mean(0), Xt - Xt.mean(0)
    b0 = y.mean()
    f = y - b0
    p = E.shape[1]
    W, P, T, c, Ts, Tt, Ps, Pt = [], [], [], [], [], [], [], []
    for _ in range(A):
        ff = float((f.T @ f)[0, 0])
        if ff < 1e-10 * float((y.T @ y)[0, 0]):
            return None
        D = Es.T @ Es / (ns - 1) - Et.T @ Et / (nt - 1)
        H = np.eye(p) + lam / (2 * ff) * D
        if np.linalg.cond(H) > 1e6:
            return None
        w = np.linalg.solve(H.T, (f.T @ E / ff).T)
        w = w / np.linalg.norm(w)
        row = []
        for e in (E, Es, Et):
            t = e @ w
            tt = float((t.T @ t)[0, 0])
            if tt < 1e-8 * max((e ** 2).sum(), 1e-300) or tt < 1e-12 * (Xl ** 2).sum():
                return None
            row.append((t, e.T @ t / tt, tt))
        (t, pl, tt), (ts, ps, _), (t_, pt, _) = row
        ca = float((f.T @ t)[0, 0]) / tt
        E, Es, Et = E - t @ pl.T, Es - ts @ ps.T, Et - t_ @ pt.T
        f = f - t * ca
        for L, v in ((W, w), (P, pl), (T, t), (Ts, ts), (Tt, t_), (Ps, ps), (Pt, pt)):
            L.append(v)
        c.append([ca])
    W, P, T, Ts, Tt, Ps, Pt = (np.hstack(L) for L in (W, P, T, Ts, Tt, Ps, Pt))
    if np.linalg.cond(P.T @ W) > 1e6:
        return None
    b = W @ np.linalg.inv(P.T @ W) @ np.array(c)
    return dict(Wdi=W, P=P, T=T, Ts=Ts, Tt=Tt, Ps=Ps, Pt=Pt, bdi=b), b0


@sub('C30', 'model', dipls_cases, 7500)
def dipls(case, ctx):
    """Weights balance covariance with the response against the difference of the domains' covariances; loadings, scores,
    coefficients and predictions follow for the unsupervised, supervised and semi-supervised variant; unsupervised
    predictions are centred by the target domain, the others by the labelled data."""
    mode, (n1, n2, n3), A, prep = case['mode'], case['sizes'], case['A'], case['prep']
    X, y, z = gens.expand(case['x']), gens.expand(case['y']), gens.expand(case['z'])
    y = linked(X, y, case)
    X = X.copy()
    X[n1:] = X[n1:] * case['gain'] + case['off'] * mx(X)
    if mode != 'semisupervised':
        X = X[:n1 + n2]
    lab = n1 if mode == 'unsupervised' else n1 + n2
    y = y[:lab]
    Z = X.mean(0) + z * np.maximum(X.std(0), 1e-3 * mx(X) + 1e-9)
    lam = 1.0 if case['lam'] is None else case['lam']

    def model(X, y, correct=False):
        px, py = plsref.Prep(prep, X), plsref.Prep(prep, y)
        U, v = px(X), py(y)
        if mx(v) < 1e-9 * mx(y) or mx(U) < 1e-9 * mx(X):
            return None
        nt = len(X) - n1 if correct else n2
        m = dipls_model(U[:lab], U[:n1], U[n1:], v, A, lam, n1, nt)
        if m is None:
            return None
        m, b0 = m
        center = U[n1:].mean(0) if mode == 'unsupervised' else U[:lab].mean(0)
        pred = py.undo((px(Z) - center) @ m['bdi'] + b0)
        score = (px(Z) - U[:lab].mean(0)) @ m['Wdi']
        return [m[k] for k in NAMES] + [pred, score]

    NAMES = ['T', 'Ts', 'Tt', 'P', 'Ps', 'Pt', 'Wdi', 'bdi']
    r = plsref.stable(oracle(model), X, y)
    if r is None:
        return ctx.trivial('ill-conditioned')
    alg = DIPLS()
    alg.num_components, alg.preprocessing_type = A, prep_type(prep)
    if case['lam'] is not None:
        alg.lambda_ = lam
    mats = [M(X[:n1]), M(X[n1:n1 + n2])] + ([M(X[n1 + n2:])] if mode == 'semisupervised' else []) + [M(y[:n1])] \
        + ([M(y[n1:])] if mode != 'unsupervised' else [])
    before = [np.array(m.data) for m in mats]
    msg = getattr(alg, 'initialize_' + mode)(*mats)
    require(msg is None and alg.is_initialised(), 'training failed: %r', msg)
    for m, b in zip(mats, before):
        same(m.data, b, 'training data')
    got = {k: arr(alg.get_matrix(k), k) for k in NAMES}
    if mode == 'semisupervised':
        ctx.finding('dipls-semisupervised-counts-labelled-target-only')
    for k, w in zip(NAMES, r):
        if k == 'bdi':
            close(got[k], w, k, 1e-6)
        else:
            up_to_sign(got[k] / mx(w), w / mx(w), k, 1e-6)
    same(arr(alg.get_loadings(), 'loadings'), got['T'], 'loadings')
    pred, score = r[-2:]
    close(arr(alg.predict(M(Z)), 'predictions', pred.shape), pred, 'predictions', 1e-6, mx(pred) + mx(y))
    up_to_sign(arr(alg.transform(M(Z)), 'scores', score.shape), score, 'scores', 1e-6, mx(score) + mx(X))
    ctx.label(mode, prep, '%d components' % A)


@sub('C30', 'rejects', lambda: dipls_cases(), 900)
def dipls_rejects(case, ctx):
    """Plain training, or a domain of one sample, yields an error message and an untrained model."""
    n1, n2, _ = case['sizes']
    X, y = gens.expand(case['x'])[:n1 + n2], gens.expand(case['y'])[:n1 + n2]
    alg = DIPLS()
    alg.num_components = 1
    msg = alg.initialize(M(X), M(y))
    require(isinstance(msg, str) and msg, 'plain training accepted: %r', msg)
    require(not alg.is_initialised(), 'trained after an error')
    one = case['gain'] > 1
    a, b = (1, n2) if one else (n1, 1)
    for mode in ('unsupervised', 'supervised'):
        alg = DIPLS()
        alg.num_components = 1
        args = [M(X[:a]), M(X[a:a + b]), M(y[:a])] + ([M(y[a:a + b])] if mode == 'supervised' else [])
        msg = getattr(alg, 'initialize_' + mode)(*args)
        require(isinstance(msg, str) and msg, 'a domain of one sample accepted: %r', msg)
        require(not alg.is_initialised(), 'trained after an error')
        try:
            alg.predict(M(X))
        except RuntimeError:
            pass
        else:
            fail('an untrained model predicts')


# ----------------------------------------------------------------------------------------- C31
@st.composite
def prm_cases(draw):
    c = draw(base_cases(rows=(5, 16), cols=(1, 8), kinds=('gauss', 'corr', 'pos', 'spec'), most=3))
    c['C'] = draw(st.sampled_from([None, 4.0, 1.0, 0.5, 20.0, 100.0, -4.0, -1.0]))
    c['outliers'] = draw(st.sampled_from([0, 0, 1, 2]))
    c['num'] = draw(st.sampled_from([None, None, None, 1, 2]))
    c['perm'] = draw(gens.seeds())
    return c


def fair(z, c):
    return 1.0 / (1.0 + np.abs(z / c)) ** 2


@oracle
def geometric_median(T, tol=1e-6, max_iter=500):
    g = T.mean(0)
    for _ in range(max_iter):
        d = np.linalg.norm(T - g, axis=1)
        if d.min() < 1e-9:
            return None
        nxt = (T / d[:, None]).sum(0) / (1 / d).sum()
        change = ((nxt - g) ** 2).sum()
        g = nxt
        if abs(change - tol) < 1e-6 * tol:
            return None
        if change < tol:
            break
    return g


@oracle
def leverage(T, c):
    g = geometric_median(T)
    if g is None:
        return None
    d = np.linalg.norm(T - g, axis=1)
    return fair(d / np.median(d), c)[:, None]


@oracle
def residual_weights(r, c):
    mad = np.median(np.abs(r - np.median(r)))
    if mad < 1e-9 * max(mx(r), 1e-300):
        return None
    return fair(r / mad, c)


def slimmed(W, num):
    """The recorded finding: num + 1 coefficients are kept."""
    W = W.copy()
    if num is not None and num > 0:
        p = len(W)
        for j in range(W.shape[1]):
            mag = np.sort(np.abs(W[:, j]))
            i = max(p - 1 - num, 0)
            if i > 0 and mag[i] - mag[i - 1] < 1e-4 * mag[-1]:
                return None
            W[np.abs(W[:, j]) < mag[i] * (1 - 1e-9), j] = 0.0
    return W


@sub('C31', 'model', prm_cases, 4000)
def prm(case, ctx):
    """Samples are weighted by the Fair function of their residual over the residuals' median deviation and of their
    distance from the geometric median over the median distance; the coefficients are those of SIMPLS on the weighted
    data; data with more columns than rows is treated in the space of its rows."""
    X, y, Z = data(case)
    A, prep = case['A'], case['prep']
    y = y.copy()
    for i in range(case['outliers']):
        y[i] += (20 + 10 * i) * max(mx(y), 1e-3)
    C = 4.0 if case['C'] is None else case['C']
    A = min(A, len(X) - 2)
    num = case['num']

    def model(X, y):
        px, py = plsref.Prep(prep, X), plsref.Prep(prep, y)
        U, v = px(X), py(y)
        if mx(v) < 1e-9 * mx(y) or mx(U) < 1e-9 * mx(X):
            return None
        R = np.eye(U.shape[1])
        if U.shape[1] > len(U):
            u, s, vh = np.linalg.svd(U.T, full_matrices=False)
            if num is not None or s[-1] < 1e-4 * s[0] and prep == 'NONE':
                return None
            R = u
            U = vh.T * s
        wr, wx = residual_weights(v - np.median(v), C), leverage(U, C)
        if wr is None or wx is None:
            return None
        gamma = np.zeros((1, A))
        for it in range(20):
            w = np.sqrt(wr * wx)
            m = plsref.simpls(U * w, v * w, A)
            W = slimmed(m['W'], num)
            if W is None:
                return None
            B = W @ m['Q'].T
            T = (U * w) @ W / w
            wr, wx = residual_weights(v * w - T @ m['Q'].T, C), leverage(T, C)
            if wr is None or wx is None:
                return None
            change = ((m['Q'] - gamma) ** 2).sum()
            gamma = m['Q']
            if abs(change - 1e-6) < 1e-9:
                return None
            if change >= 1e-6:      # the recorded finding: the loop ends when the coefficients still change
                break
        else:
            return None
        return [R @ B, wr, wx, py.undo(px(Z) @ R @ B), (px(Z) @ R) @ W]

    r = plsref.stable(oracle(model), X, y)
    if r is None:
        return ctx.trivial('ill-conditioned')
    alg = PRM()
    alg.num_components, alg.preprocessing_type = A, prep_type(prep)
    if case['C'] is not None:
        alg.C = C
    if num is not None:
        alg.num_SIMPLS_coefficients = num
    a, b = M(X), M(y)
    msg = alg.initialize(a, b)
    require(msg is None and alg.is_initialised(), 'training failed: %r', msg)
    same(a.data, X, 'predictors')
    same(b.data, y, 'response')
    B, wr, wx, pred, score = r
    gr, gx, gw = (arr(alg.get_matrix(k), k, (len(X), 1)) for k in ('Wr', 'Wx', 'W'))
    for g in (gr, gx, gw):
        require(((g > 0) & (g <= 1)).all(), 'weights outside (0, 1]: %r', g.ravel().tolist())
    close(gw, gr * gx, 'combined weights', 1e-12, 1.0)
    close(arr(alg.get_matrix('B'), 'B'), B, 'B', 1e-5)
    close(gr, wr, 'residual weights', 1e-5, 1.0)
    close(gx, wx, 'leverage weights', 1e-5, 1.0)
    close(arr(alg.predict(M(Z)), 'predictions', pred.shape), pred, 'predictions', 1e-5, mx(pred) + mx(y))
    up_to_sign(arr(alg.transform(M(Z)), 'scores', score.shape), score, 'scores', 1e-5, mx(score) + 1e-3)
    ctx.finding('prm-stops-after-one-iteration')
    ctx.label(prep, 'wide' if X.shape[1] > len(X) else 'tall', 'outliers' if case['outliers'] else 'clean', 'C %s' % case['C'])


@sub('C31', 'robust', prm_cases, 640)
def prm_robust(case, ctx):
    """A single gross error in the response of otherwise linear data moves the predictions less than it does without
    weighting, and weighting nothing (infinite tuning constant) is SIMPLS."""
    X, y, Z = data(dict(case, prep='NONE'))
    X = X - X.mean(0)
    if X.shape[1] > len(X) // 2 or len(X) < 8:
        return ctx.trivial('too few rows')
    g = np.random.Generator(np.random.PCG64(case['perm']))
    beta = g.standard_normal((X.shape[1], 1))
    sd = X.std(0)
    if sd.min() < 1e-6 * mx(X) or np.linalg.cond(X / sd) > 20:
        return ctx.trivial('ill-conditioned')
    X = X / sd
    y = X @ beta
    y = y + 0.05 * y.std() * g.standard_normal(y.shape)
    bad = y.copy()
    bad[int(case['perm']) % len(y)] += 50 * y.std()
    A = X.shape[1]
    out = {}
    for C in (float('inf'), 1.0):
        alg = PRM()
        alg.C, alg.num_components = C, A
        require(alg.initialize(M(X), M(bad)) is None, 'training failed')
        out[C] = arr(alg.predict(M(X)), 'predictions', y.shape)
    s = SIMPLS()
    s.num_components = A
    require(s.initialize(M(X), M(bad)) is None, 'training failed')
    close(out[float('inf')], arr(s.predict(M(X)), 'p'), 'infinite tuning constant', 1e-7, mx(bad))
    e_rob, e_plain = ((out[1.0] - X @ beta) ** 2).sum(), ((out[float('inf')] - X @ beta) ** 2).sum()
    if e_plain < 0.1 * ((X @ beta) ** 2).sum():
        return ctx.trivial('the gross error has no leverage')
    require(e_rob <= 0.5 * e_plain, 'robust error %r, plain error %r', e_rob, e_plain)
