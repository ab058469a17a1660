"""C33 rows are treated independently, repeatably and on copies; C34 predictions follow the data."""
import numpy as np
from hypothesis import strategies as st

from wai.ma.algorithm import CCAFilter
from wai.ma.algorithm.glsw import EPO, GLSW, YGradientEPO, YGradientGLSW

from .. import algs, gens, plsref
from ..algs import M
from ..engine import oracle, require, sub
from ..ref import arr, close, mx, same
from .p07_pls import data, kernel_array, outputs, setup_cases, well_behaved, columns_aligned

FILTERS = dict(GLSW=GLSW, EPO=EPO, YGradientGLSW=YGradientGLSW, YGradientEPO=YGradientEPO, CCAFilter=CCAFilter)


# ----------------------------------------------------------------------------------------- C33
@st.composite
def row_cases(draw):
    c = draw(setup_cases(kinds=('gauss', 'corr', 'pos', 'big', 'mirror')))
    c['filter'] = draw(st.sampled_from([None] * 8 + sorted(FILTERS)))
    c['pick'] = draw(st.lists(st.integers(0, 30), min_size=1, max_size=8))
    return c


def build(case, X, Y, handed=None, gamma=None):
    """A trained algorithm and its observable functions of rows of predictors or responses; the training matrices are
    appended to `handed`."""
    handed = [] if handed is None else handed
    if case['filter']:
        f = FILTERS[case['filter']]()
        if hasattr(f, 'N'):
            f.N = 1
        if case['filter'] in ('GLSW', 'EPO'):
            n = len(X) // 2
            handed += [M(X[:n]), M(X[n:2 * n])]
        else:
            handed += [M(X), M(Y[:, :1] if case['filter'] != 'CCAFilter' else Y)]
        msg = f.initialize(*handed)
        require(msg is None and f.is_initialised(), 'training failed: %r', msg)
        return f, ['transform'] + (['transform_response'] if case['filter'] == 'CCAFilter' else [])
    alg = algs.make(case['setup'], case['A'], case['prep'])
    if gamma is not None and getattr(alg, 'kernel', None) is not None and hasattr(alg.kernel, 'gamma'):
        alg.kernel.gamma = gamma
    msg = algs.fit(case['setup'], alg, X, Y, handed)
    require(msg is None and alg.is_initialised(), '%s does not train: %r', case['setup']['alg'], msg)
    return alg, ['predict', 'transform']


def name_of(case):
    return case['filter'] or case['setup']['alg']


def usable(case, X, Y, Z):
    if case['filter']:
        return True
    return well_behaved(case['setup'], case['A'], X, Y, Z, case['prep']) is not None


@sub('C33', 'rows', row_cases, 2500)
def rows(case, ctx):
    """Applied to any selection of rows, in any order and with repetitions, a trained algorithm yields for each row what it
    yields for the row on its own, every time it is asked."""
    X, Y, Z = data(case)
    if not usable(case, X, Y, Z):
        return ctx.trivial('ill-conditioned')
    alg, fns = build(case, X, Y)
    for fn in fns:
        src = Y if fn == 'transform_response' else np.vstack([Z, X])
        pick = [i % len(src) for i in case['pick']]
        f = getattr(alg, fn)
        if name_of(case) == 'SparsePLS' and fn == 'transform' and case['A'] > 1:
            # recorded finding: only the first component's scores do not depend on the other rows
            ctx.finding('sparsepls-transform-depends-on-batch')
            g = f
            f = lambda m: M(arr(g(m), fn, finite=False)[:, :1])
        every = np.array(arr(f(M(src)), fn))
        require(len(every) == len(src), '%s yields %d rows for %d', fn, len(every), len(src))
        tol = 1e-7 * (mx(every) + mx(Y) if fn == 'predict' else mx(every) + mx(X))
        given = M(src[pick])
        part = arr(f(given), fn + ' of selected rows')
        same(given.data, src[pick], 'input of ' + fn)
        close(part, every[pick], '%s of selected rows' % fn, 1.0, tol)
        for i in pick:
            one = M(src[i:i + 1])
            close(arr(f(one), fn + ' of one row'), every[i:i + 1], '%s of row %d' % (fn, i), 1.0, tol)
            same(one.data, src[i:i + 1], 'single row given to ' + fn)
        close(arr(f(M(src)), fn), every, 'repeated ' + fn, 1.0, 1e-4 * tol)
    ctx.label(name_of(case))


@sub('C33', 'copies', row_cases, 2500)
def copies(case, ctx):
    """Later changes to the training matrices, the inputs or the results do not influence a trained algorithm, nor does
    training another one; inputs and earlier results are never changed."""
    X, Y, Z = data(case)
    if not usable(case, X, Y, Z):
        return ctx.trivial('ill-conditioned')
    training, given = [], []
    alg, fns = build(case, X, Y, training)
    build(case, X, Y, given)
    for m, a in zip(training, given):       # trained twice on equal matrices: each has to be as it was before
        same(m.data, a.data, 'training data')
    rest = np.vstack([X, Y.T.reshape(-1, 1) @ np.ones((1, X.shape[1]))])
    for m in training:
        require(np.isin(m.data, rest).all(), 'training data changed')
    src = {fn: Y if fn == 'transform_response' else Z for fn in fns}
    ins = {fn: M(src[fn]) for fn in fns}
    outs = {fn: getattr(alg, fn)(ins[fn]) for fn in fns}
    first = {fn: np.array(arr(outs[fn], fn)) for fn in fns}
    for fn in fns:
        same(ins[fn].data, src[fn], 'input of ' + fn)

    def overwrite(m):
        for i in range(m.num_rows()):
            for j in range(m.num_columns()):
                m.set(i, j, 1e3 + i - 2 * j)

    for m in training:
        overwrite(m)
    other = dict(case, prep='CENTER' if case['prep'] != 'CENTER' else 'STANDARDIZE')
    try:
        build(other, X[::-1] * 1.5 + 0.1 * mx(X) * np.arange(X.shape[1]), np.roll(Y, 1, 0), gamma=1e-3)
    except Exception:
        pass        # this data may be degenerate; only what it does to the first object counts
    for fn in fns:
        same(outs[fn].data, first[fn], 'earlier result of ' + fn)
        overwrite(ins[fn])
        same(outs[fn].data, first[fn], 'result of %s after its input changed' % fn)
        overwrite(outs[fn])
    for fn in fns:
        close(arr(getattr(alg, fn)(M(src[fn])), fn), first[fn], '%s after unrelated changes' % fn, 1e-12, mx(first[fn]) + 1e-300)
    # the same training data in a new object
    again, _ = build(case, X, Y)
    for fn in fns:
        close(arr(getattr(again, fn)(M(src[fn])), fn), first[fn], '%s of a second training' % fn, 1e-12, mx(first[fn]) + 1e-300)
    ctx.label(name_of(case))


# ----------------------------------------------------------------------------------------- C34
INNER = dict(NIPALS='S', CCARegression='S', SparsePLS='S', KernelPLS='C', DIPLS='C')
RELATIONS = ('row order', 'column order', 'response order', 'offset of predictors', 'unit of predictors', 'units of predictors',
             'rotation', 'offset of response', 'unit of response', 'units of responses', 'rows repeated', 'constant response',
             'column of zeros', 'constant predictor')


def holds(rel, d, prep, q):
    """Whether the relation follows from the definition of the algorithm as set up."""
    alg, inner = d['alg'], INNER.get(d['alg'], 'N')
    multi = alg in algs.MULTI
    std = prep == 'STANDARDIZE' or inner == 'S'
    centred = prep != 'NONE' or inner != 'N'
    if rel in ('row order', 'column order'):
        return True
    if rel == 'response order':
        return multi and q > 1
    if rel in ('offset of predictors', 'offset of response'):
        return centred
    if rel == 'units of predictors':
        return std
    if rel == 'unit of predictors':
        return std or alg in ('PLS1', 'SIMPLS', 'OPLS', 'PRM', 'DIPLS') or d.get('kernel') == 'linear'
    if rel == 'rotation':
        return not std and d.get('num_coefficients', 0) <= 0 and d.get('base') != 'NIPALS'
    if rel == 'unit of response':
        return True
    if rel == 'units of responses':
        return multi and q > 1 and std
    if rel == 'rows repeated':
        return alg in ('PLS1', 'SIMPLS', 'OPLS', 'NIPALS', 'SparsePLS', 'PRM') or d.get('kernel') == 'linear'
    if rel == 'constant response':
        return multi
    # gamma of the polynomial kernel is one over the number of columns; sparse PLS scales by the median over the columns
    # before it compares with a fixed threshold
    if rel == 'column of zeros':
        return d.get('kernel') != 'poly' and alg != 'SparsePLS'
    if rel == 'constant predictor':
        return centred and alg != 'SparsePLS' and d.get('kernel') != 'poly' and d.get('base') != 'NIPALS'     # which scales what centring left
    raise KeyError(rel)


@st.composite
def relation_cases(draw):
    c = draw(setup_cases(kinds=('gauss', 'corr', 'pos', 'big', 'int')))
    q = c['y']['c']
    c['rel'] = draw(st.sampled_from([r for r in RELATIONS if holds(r, c['setup'], c['prep'], q)]))
    c['seed'] = draw(gens.seeds())
    c['factor'] = draw(st.sampled_from([2.0, 10.0, 0.1, -1.0, -3.0]))
    return c


@oracle
def separated(d, A, X, Y, prep):
    """Whether the iteration for several responses has one limit for every start (dominant singular values well apart)."""
    name = d['alg']
    kind = prep if INNER[name] == 'C' and prep == 'STANDARDIZE' else 'STANDARDIZE' if INNER[name] == 'S' else 'CENTER'
    U, V = plsref.chain(X, prep, kind)(X), plsref.chain(Y, prep, kind)(Y)
    K = None
    if name == 'KernelPLS':
        K = kernel_array(algs.KERNELS[d['kernel']](), U)
        J = np.eye(len(U)) - 1.0 / len(U)
        K = J @ K @ J
    for k in range(A):
        if K is not None:
            H = V.T @ K @ V
        elif name == 'NIPALS':
            H = U.T @ V
        else:
            def basis(a):
                u, s, _ = np.linalg.svd(a, full_matrices=False)
                return u[:, s > 1e-7 * s[0]]
            H = basis(U).T @ basis(V)
        u, s, vh = np.linalg.svd(H)
        if len(s) > 1 and s[1] > 0.9 * s[0]:
            return False
        if K is not None:
            t = K @ V @ vh[:1].T
            t /= np.linalg.norm(t)
            P = np.eye(len(t)) - t @ t.T
            K, V = P @ K @ P, P @ V
        elif name == 'NIPALS':
            t = U @ u[:, :1]
            U, V = U - t @ (t.T @ U) / (t.T @ t), V - t @ (t.T @ V) / (t.T @ t)
        else:
            t, w = basis(U) @ u[:, :1], basis(V) @ vh[:1].T
            U, V = U - t @ (t.T @ U), V - w @ (w.T @ V)
        if mx(V) < 1e-6 * mx(Y):
            break
    return True


@oracle
def related(case, X, Y, Z):
    """The other data, set-up, and what its predictions (and scores) must be from those of the original."""
    rel, d, prep = case['rel'], dict(case['setup']), case['prep']
    g = np.random.Generator(np.random.PCG64(case['seed']))
    p, q, n = X.shape[1], Y.shape[1], len(X)
    keep = lambda a: a
    pred, score = keep, keep
    k = case['factor']
    if rel == 'row order':
        lab, cuts = algs.parts(d, n)
        edges = [0] + list(cuts or ()) + [n]
        order = np.concatenate([a + g.permutation(b - a) for a, b in zip(edges, edges[1:])])
        X, Y = X[order], Y[order]
    elif rel == 'column order':
        order = g.permutation(p)
        X, Z = X[:, order], Z[:, order]
        if d['alg'] == 'OPLS':
            score = lambda a: a[:, order]
    elif rel == 'response order':
        order = g.permutation(q)
        Y = Y[:, order]
        pred = lambda a: a[:, order]
    elif rel == 'offset of predictors':
        o = g.standard_normal((1, p)) * 3 * X.std(0)
        X, Z = X + o, Z + o
    elif rel in ('unit of predictors', 'units of predictors'):
        s = np.full((1, p), abs(k)) if rel == 'unit of predictors' else 10.0 ** g.uniform(-1, 1, (1, p))
        X, Z = X * s, Z * s
        score = None
        if d['alg'] == 'DIPLS' and prep != 'STANDARDIZE':
            d['lambda_'] = d['lambda_'] / abs(k) ** 2
    elif rel == 'rotation':
        R = np.linalg.qr(g.standard_normal((p, p)))[0]
        X, Z = X @ R, Z @ R
        if d['alg'] == 'OPLS':
            score = lambda a: a @ R
    elif rel == 'offset of response':
        o = g.standard_normal((1, q)) * 3 * (Y.std(0) + mx(Y))
        Y = Y + o
        pred = lambda a: a + o
    elif rel in ('unit of response', 'units of responses'):
        s = np.full((1, q), k) if rel == 'unit of response' else 10.0 ** g.uniform(-1, 1, (1, q))
        Y = Y * s
        pred = lambda a: a * s
        if d['alg'] in ('DIPLS', 'VCPLS') and prep != 'STANDARDIZE':
            d['lambda_'] = d['lambda_'] * k ** 2
        score = keep if d['alg'] in ('PLS1', 'NIPALS', 'DIPLS', 'KernelPLS', 'SparsePLS') else None
    elif rel == 'rows repeated':
        X, Y = np.vstack([X, X]), np.vstack([Y, Y])
        score = None
    elif rel == 'constant response':
        i = int(g.integers(q + 1))
        v = k * mx(Y) * g.uniform(0.1, 1)
        Y = np.insert(Y, i, v, axis=1)
        pred = lambda a: np.insert(a, i, v, axis=1)
    elif rel in ('column of zeros', 'constant predictor'):
        i = int(g.integers(p + 1))
        v = k * mx(X) if rel == 'constant predictor' else 0.0
        X, Z = np.insert(X, i, v, axis=1), np.insert(Z, i, v, axis=1)
        if d['alg'] == 'OPLS':
            score = None
    return X, Y, Z, d, pred, score


@sub('C34', 'relations', relation_cases, 5000)
def relations(case, ctx):
    """Reordering rows or columns, moving the origin, changing units, rotating the predictors or repeating every row changes
    the predictions of a newly trained algorithm exactly as its definition implies."""
    X, Y, Z = data(case)
    d, A, prep, rel = dict(case['setup']), case['A'], case['prep'], case['rel']
    if d['alg'] == 'PRM':
        d['tol'], d['max_iter'] = 0.0, 4     # stops before a distance reaches zero, independently of units
    if d['alg'] == 'KernelPLS' and d['kernel'] != 'linear':
        X, Z = X / max(mx(X), 1e-9), Z / max(mx(X), 1e-9)
    case = dict(case, setup=d)
    lab = algs.labelled(d, len(X))
    if prep == 'STANDARDIZE' and (Y[:lab].std(0) < 1e-6 * np.abs(Y).max(0)).any():
        return ctx.trivial('constant response')
    base = well_behaved(d, A, X, Y, Z, prep)
    if base is None:
        return ctx.trivial('ill-conditioned')
    if d['alg'] in algs.MULTI and Y.shape[1] > 1:
        if not separated(d, A, X, Y, prep):
            return ctx.trivial('dominant directions of equal strength')
        longer = well_behaved(dict(d, max_iter=6000), A, X, Y, Z, prep)
        if longer is None or mx(longer[0] - base[0]) > 1e-8 * (mx(base[0]) + mx(Y)):
            return ctx.trivial('not converged')
    tol = 1e-4 if d['alg'] == 'VCPLS' else 1e-5
    X2, Y2, Z2, d2, pred, score = related(case, X, Y, Z)
    # (an added constant column is not one any more when perturbed)
    if rel not in ('constant response', 'constant predictor') and well_behaved(d2, A, X2, Y2, Z2, prep) is None:
        return ctx.trivial('ill-conditioned')
    alg = algs.trained(d2, A, X2, Y2, prep)
    want = pred(base[0])
    close(arr(alg.predict(M(Z2)), 'predictions', want.shape), want, '%s: predictions after change of %s' % (d['alg'], rel), tol, mx(want) + mx(Y2))
    if score is not None and not (d['alg'] == 'SparsePLS' and rel == 'offset of predictors'):
        want = score(base[1])
        got = arr(alg.transform(M(Z2)), 'scores', want.shape)
        if d['alg'] == 'OPLS' and rel == 'offset of predictors' and prep == 'NONE':
            return
        close(columns_aligned(got, want), want, '%s: transformed data after change of %s' % (d['alg'], rel), tol,
              mx(want) + (mx(arr(alg.transform(M(X2)), 'scores')) if d['alg'] in algs.MULTI else 0.0) + 1e-300)
    ctx.label(rel, d['alg'])
