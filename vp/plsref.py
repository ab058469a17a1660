"""Reference computations for the supervised algorithms (numpy only; never calls the code under test)."""
import numpy as np

from .engine import HarnessError
from .ref import EPS, rel

NONE, CENTER, STANDARDIZE = 'NONE', 'CENTER', 'STANDARDIZE'


class Prep:
    """Column means and sample deviations (1 for constant columns) of the data it was made from."""
    def __init__(self, kind, a):
        n, p = a.shape
        self.mean = a.mean(0) if kind != NONE else np.zeros(p)
        self.sd = np.ones(p)
        if kind == STANDARDIZE:
            sd = a.std(0, ddof=1)
            self.sd = np.where(sd <= 1e-13 * np.abs(a).max(0), 1.0, sd)

    def __call__(self, a):
        return (a - self.mean) / self.sd

    def undo(self, a):
        return a * self.sd + self.mean


class Chain:
    def __init__(self, *preps):
        self.preps = preps

    def __call__(self, a):
        for p in self.preps:
            a = p(a)
        return a

    def undo(self, a):
        for p in reversed(self.preps):
            a = p.undo(a)
        return a


def chain(a, *kinds):
    preps = []
    for k in kinds:
        p = Prep(k, a)
        a = p(a)
        preps.append(p)
    return Chain(*preps)


def krylov(X, y, A):
    """Coefficients of the least-squares solution within span{s, Ms, .., M^(A-1)s}, s = X'y, M = X'X."""
    M, s = X.T @ X, X.T @ y
    V = []
    v = s.ravel()
    for _ in range(A):
        for _ in range(2):
            for u in V:
                v = v - u * (u @ v)
        nv = np.linalg.norm(v)
        if nv == 0:
            break
        V.append(v / nv)
        v = M @ V[-1]
    V = np.array(V).T
    return V @ np.linalg.lstsq(X @ V, y, rcond=None)[0]


def pls1(X, y, A):
    """Classic PLS1 with deflation of X: weights, loadings, scores, coefficients per component, rotations."""
    n, p = X.shape
    W, P, T, b = np.zeros((p, A)), np.zeros((p, A)), np.zeros((n, A)), np.zeros((A, 1))
    E = X.copy()
    left = []
    for k in range(A):
        w = E.T @ y
        left.append(np.linalg.norm(w))
        w = w / max(left[-1], 1e-300)
        t = E @ w
        tt = float((t.T @ t)[0, 0])
        W[:, [k]], T[:, [k]] = w, t
        b[k] = (t.T @ y) / tt
        P[:, [k]] = E.T @ t / tt
        E = E - t @ P[:, [k]].T
    R = W @ np.linalg.inv(P.T @ W)
    return dict(W=W, P=P, T=T, b=b, R=R, beta=R @ b, left=min(left) / max(left[0], 1e-300))


def simpls(X, y, A):
    """SIMPLS for one response: weights that give orthonormal scores, and the regression on them."""
    r = pls1(X, y, A)
    nt = np.linalg.norm(r['T'], axis=0)
    W = r['R'] / nt
    Q = y.T @ (r['T'] / nt)
    return dict(W=W, Q=Q, B=W @ Q.T, left=r['left'])


def perturbed(a, k):
    g = np.random.Generator(np.random.PCG64(1234 + k))
    return a * (1 + 1e-10 * g.choice([-1.0, 1.0], a.shape))


def stable(fn, *arrays, limit=1e-6):
    """fn(*arrays) (a list of arrays) if a relative change of 1e-10 of the inputs leaves it the same up to `limit`,
    None if the problem is ill-conditioned."""
    try:
        a = fn(*arrays)
        b = fn(*[perturbed(x, i) for i, x in enumerate(arrays)])
    except np.linalg.LinAlgError:
        return None
    except HarnessError as e:
        c = e
        while c is not None and not isinstance(c, np.linalg.LinAlgError):
            c = c.__cause__
        if c is None:
            raise
        return None
    if a is None or b is None:
        return None
    for x, y in zip(a, b):
        if not np.all(np.isfinite(x)) or not rel(y, x) <= limit:
            return None
    return a


def pls2(X, Y, A, tol, max_iter, mode='PLS', norm_y=False, canonical=False, extra=0):
    """NIPALS for several responses on already standardised data."""
    n, p = X.shape
    q = Y.shape[1]
    X, Y = X.copy(), Y.copy()
    W, C, P, Q = np.zeros((p, A)), np.zeros((q, A)), np.zeros((p, A)), np.zeros((q, A))
    T, U = np.zeros((n, A)), np.zeros((n, A))
    converged = True
    for k in range(A):
        j = np.nonzero(np.abs(Y).max(0) > 1e-8 * np.abs(Y).max())[0]      # the first response that varies
        u = Y[:, [j[0] if len(j) else 0]]
        old = np.zeros((p, 1))
        it = 0
        Xi = np.linalg.pinv(X, rcond=1e6 * EPS) if mode == 'CCA' else None
        Yi = np.linalg.pinv(Y, rcond=1e6 * EPS) if mode == 'CCA' else None
        while True:
            w = Xi @ u if mode == 'CCA' else X.T @ u / (u.T @ u)
            w = w / np.linalg.norm(w)
            t = X @ w
            c = Yi @ t if mode == 'CCA' else Y.T @ t / (t.T @ t)
            if norm_y:
                c = c / np.linalg.norm(c)
            u = Y @ c / (c.T @ c)
            if float(((w - old) ** 2).sum()) < tol or q == 1:
                break
            if it >= max_iter + extra:
                converged = False
                break
            old = w
            it += 1
        tt = float((t.T @ t)[0, 0])
        pl = X.T @ t / tt
        X = X - t @ pl.T
        if canonical:
            ql = Y.T @ u / float((u.T @ u)[0, 0])
            Y = Y - u @ ql.T
        else:
            ql = Y.T @ t / tt
            Y = Y - t @ ql.T
        W[:, [k]], C[:, [k]], P[:, [k]], Q[:, [k]], T[:, [k]], U[:, [k]] = w, c, pl, ql, t, u
    R = W @ np.linalg.pinv(P.T @ W, rcond=1e-13)
    return dict(W=W, C=C, P=P, Q=Q, T=T, U=U, R=R, coef=R @ Q.T, converged=converged)
