"""C03 matrices as mutable values over histories of calls, C04 decompositions, C05 cached decompositions."""
import numpy as np
from hypothesis import strategies as st

from wai.ma.core.matrix import Matrix, factory, helper

from .. import gens
from ..engine import fail, oracle, require, sub
from ..ref import arr, close, cond, mx, same, short, ordered


def M(a):
    return factory.create(ordered(a))


# --------------------------------------------------------------------------- C03 model-based histories
OPS = ('new', 'set', 'set', 'set_row', 'set_column', 'get_row', 'get_column', 'rows', 'columns', 'sub', 'head', 'copy', 'transpose',
       'concat0', 'concat1', 'scale', 'addv', 'subv', 'mulv', 'divv', 'fill_diagonal', 'delete_cols', 'diag', 'mul', 'add', 'vec_diag',
       'eig', 'svd', 'raw', 'alias', 'multi')


@st.composite
def histories(draw):
    n0 = draw(st.integers(1, 2))
    init = [draw(gens.explicit((1, 4), (1, 4))) for _ in range(n0)]
    small = st.integers(0, 7)
    ops = draw(st.lists(st.fixed_dictionaries(dict(
        op=st.sampled_from(OPS), i=small, j=small, r=small, c=small, tup=st.booleans(), v=st.sampled_from(gens.SMALL),
        idx=st.lists(small, min_size=1, max_size=4))), min_size=1, max_size=14))
    return dict(init=init, ops=ops)


def to_model(sut, what):
    d = arr(sut, what)
    return d


@sub('C03', 'history', histories, quick=3000)
def c03_history(case, ctx):
    """Any sequence of edits, extractions and combinations of several matrices agrees with a plain model of values."""
    model = [gens.expand(s) for s in case['init']]
    sut = [M(a) for a in model]
    kinds = set()

    def push(m, s, what):
        d = arr(s, what)
        same(d, m, what)
        model.append(np.array(m, dtype=float))
        sut.append(s)

    for step, o in enumerate(case['ops']):
        op = o['op']
        i, j = o['i'] % len(sut), o['j'] % len(sut)
        A, a, B, b = sut[i], model[i], sut[j], model[j]
        n, m = a.shape
        r, c = o['r'] % n, o['c'] % m
        what = 'step %d: %s' % (step, op)
        v = o['v']
        if len(sut) > 6 and op in ('new', 'copy', 'transpose', 'get_row', 'get_column', 'rows', 'columns', 'sub', 'head', 'concat0',
                                   'concat1', 'delete_cols', 'diag', 'mul', 'add', 'vec_diag', 'multi'):
            sut.pop(0), model.pop(0)
            continue
        kinds.add(op)
        if op == 'new':
            push(np.full((n, m), v), factory.filled(n, m, v), what)
        elif op == 'set':
            A.set(r, c, v)
            a[r, c] = v
            require(A.get(r, c) == v, '%s: get returns %r', what, A.get(r, c))
        elif op == 'set_row':
            vec = b[o['r'] % b.shape[0]] if o['tup'] else b[:, o['c'] % b.shape[1]]
            k = min(len(vec), m)
            A.set_row(r, B.get_row(o['r'] % b.shape[0]) if o['tup'] else B.get_column(o['c'] % b.shape[1]))
            a[r, :k] = np.array(vec[:k])
        elif op == 'set_column':
            vec = b[o['r'] % b.shape[0]] if o['tup'] else b[:, o['c'] % b.shape[1]]
            k = min(len(vec), n)
            A.set_column(c, B.get_row(o['r'] % b.shape[0]) if o['tup'] else B.get_column(o['c'] % b.shape[1]))
            a[:k, c] = np.array(vec[:k])
        elif op == 'get_row':
            push(a[r:r + 1], A.get_row(r) if o['tup'] else helper.row_as_vector(A, r), what)
        elif op == 'get_column':
            push(a[:, c:c + 1], A.get_column(c) if o['tup'] else helper.column_as_vector(A, c), what)
        elif op in ('rows', 'columns', 'sub'):
            if o['tup']:
                lo, hi = sorted((o['idx'][0], o['idx'][-1]))
                ri = list(range(min(lo, n - 1), min(hi + 1, n))) or [n - 1]
                ci = list(range(min(lo, m - 1), min(hi + 1, m))) or [m - 1]
                rs, cs = (ri[0], ri[-1] + 1), (ci[0], ci[-1] + 1)
            else:
                ri, ci = [x % n for x in o['idx']], [x % m for x in reversed(o['idx'])]
                rs, cs = list(ri), list(ci)
            if op == 'rows':
                push(np.array([a[x] for x in ri]), A.get_rows(rs), what)
            elif op == 'columns':
                push(np.array([a[:, x] for x in ci]).T, A.get_columns(cs), what)
            else:
                push(np.array([[a[x, y] for y in ci] for x in ri]), A.get_sub_matrix(rs, cs), what)
        elif op == 'head':
            k = 5 if o['tup'] else o['r'] + 1
            if o['v'] == 0.0 and not o['tup']:
                require(tuple(A.head(0).data.shape) == (0, m), '%s: head(0) is %r', what, A.head(0).data)
            push(a[:k], A.head() if o['tup'] else A.head(k), what)
        elif op == 'copy':
            push(a, A.copy(), what)
        elif op == 'transpose':
            push(a.T, A.transpose() if o['tup'] else A.t(), what)
        elif op == 'concat0':
            if b.shape[1] == m and n + b.shape[0] <= 9:
                push(np.array([x for x in a] + [x for x in b]), A.concat_along_rows(B), what)
        elif op == 'concat1':
            if b.shape[0] == n and m + b.shape[1] <= 9:
                push(np.array([x for x in a.T] + [x for x in b.T]).T, A.concat_along_columns(B), what)
        elif op == 'multi':
            ax = 0 if o['tup'] else 1
            ids = [x % len(sut) for x in o['idx']]
            ids = [i] + [x for x in ids if model[x].shape[1 - ax] == a.shape[1 - ax]]
            if sum(model[x].shape[ax] for x in ids) <= 9:
                lines = [ln for x in ids for ln in (model[x] if ax == 0 else model[x].T).tolist()]
                push(np.array(lines) if ax == 0 else np.array(lines).T, helper.multi_concat(ax, *[sut[x] for x in ids]), what)
        elif op == 'scale':
            push(a * v, A.mul(v), what)
        elif op in ('addv', 'subv', 'mulv', 'divv'):
            vec = np.array([[float(1 + (k + o['r']) % 5) for k in range(m if o['tup'] else n)]])
            if mx(a) > 1e12:
                continue
            f, g = {'addv': (A.add_by_vector_modify, np.add), 'subv': (A.sub_by_vector_modify, np.subtract),
                    'mulv': (A.mul_by_vector_modify, np.multiply), 'divv': (A.div_by_vector_modify, np.divide)}[op]
            vv = vec if o['tup'] else vec.T
            f(M(vv))
            model[i] = g(a, vv)
        elif op == 'fill_diagonal':
            helper.fill_diagonal(A, v)
            for k in range(min(n, m)):
                a[k, k] = v
        elif op == 'delete_cols':
            drop = {x % m for x in o['idx']}
            if len(drop) < m:
                keep = [x for x in range(m) if x not in drop]
                push(np.array([a[:, x] for x in keep]).T,
                     helper.delete_cols(A, sorted(drop)) if len(drop) > 1 else helper.delete_col(A, list(drop)[0]), what)
        elif op == 'diag':
            push(np.array([[a[k, k]] for k in range(min(n, m))]), A.diag(), what)
        elif op == 'mul':
            if m == b.shape[0] and mx(a) * mx(b) < 1e12:
                s = A.mul(B)
                close(arr(s, what), np.einsum('ij,jk->ik', a, b), what, 1e-12, max(1e-300, mx(a) * mx(b) * m))
                model.append(s.data.copy())
                sut.append(s)
        elif op == 'add':
            if a.shape == b.shape:
                push(a + b, A.add(B), what)
        elif op == 'vec_diag':
            if 1 in a.shape and a.size <= 7:
                push(np.diag(a.ravel()), A.vector_to_diagonal(), what)
        elif op == 'eig':
            if n == m:
                A.get_eigenvalues()      # queries must not change anything
                A.get_eigenvectors()
        elif op == 'svd':
            A.svd_U(), A.svd_S(), A.svd_V(), A.get_singular_values()
        elif op == 'raw':
            one, two = A.to_raw_copy_1D(), A.to_raw_copy_2D()
            require(list(map(float, one)) == [float(a[x, y]) for y in range(m) for x in range(n)], '%s: to_raw_copy_1D %r', what, one)
            require([list(map(float, x)) for x in two] == a.tolist(), '%s: to_raw_copy_2D %r', what, two)
            one[0] = 99.5
            two[0][0] = 98.5
            pos = A.which(lambda x: x > 0)
            require(pos == [(x, y) for x in range(n) for y in range(m) if a[x, y] > 0], '%s: which %r', what, pos)
            require(A.any(lambda x: x > 1) == bool((a > 1).any()) and A.all(lambda x: x > 0) == bool((a > 0).all()), what + ': any/all')
            lines = str(A).split('\n')
            require([[float(x) for x in ln.split(',')] for ln in lines] == a.tolist(), '%s: str %r', what, str(A))
        elif op == 'alias':
            require((A == B) == (a.shape == b.shape and bool((a == b).all())), '%s: == is %r for\n%s\n%s', what, A == B, short(a), short(b))
        for k in range(len(sut)):
            same(arr(sut[k], what), model[k], '%s: matrix %d' % (what, k))
            require((sut[k].num_rows(), sut[k].num_columns()) == model[k].shape, '%s: dimensions of matrix %d', what, k)
    ctx.label(*kinds)
    if not (kinds & {'set', 'set_row', 'set_column', 'addv', 'subv', 'mulv', 'divv', 'fill_diagonal'}):
        ctx.trivial('no edit')


@st.composite
def nan_cases(draw):
    return dict(a=draw(gens.explicit((1, 4), (1, 4), gens.values(special=draw(st.booleans())))), pos=draw(st.lists(st.integers(0, 15), max_size=3)))


@sub('C03', 'nan', nan_cases, quick=400)
def c03_nan(case, ctx):
    """contains_NaN reports NaN elements wherever they are, and only NaN."""
    a = gens.expand(case['a'])
    A = M(a)
    require(A.contains_NaN() == False, 'contains_NaN without NaN: %s', short(a))
    for p in case['pos']:
        A.set((p % a.size) // a.shape[1], (p % a.size) % a.shape[1], float('nan'))
    require(bool(A.contains_NaN()) == bool(case['pos']), 'contains_NaN is %r for %s', A.contains_NaN(), short(A.data))


@st.composite
def oob_cases(draw):
    return dict(a=draw(gens.explicit((1, 4), (1, 4))), k=draw(st.integers(0, 5)), op=draw(st.sampled_from(
        ['get_r', 'get_c', 'set_r', 'set_c', 'get_row', 'get_column', 'set_row', 'set_column', 'rows', 'cols', 'rows_to', 'cols_list', 'sub_r', 'sub_c',
         'sub_r_list', 'sub_c_list', 'ndim'])))


@sub('C03', 'out-of-range', oob_cases, quick=400)
def c03_oob(case, ctx):
    """Positions outside the matrix are rejected and nothing is changed."""
    a = gens.expand(case['a'])
    n, m = a.shape
    A = M(a)
    k = case['k']
    f = {'get_r': lambda: A.get(n + k, 0), 'get_c': lambda: A.get(0, m + k), 'set_r': lambda: A.set(n + k, 0, 1),
         'set_c': lambda: A.set(0, m + k, 1), 'get_row': lambda: A.get_row(n + k), 'get_column': lambda: A.get_column(m + k),
         'set_row': lambda: A.set_row(n + k, M([[1.0] * m])), 'set_column': lambda: A.set_column(m + k, M([[1.0] * n])),
         'rows': lambda: A.get_rows([0, n + k]), 'cols': lambda: A.get_columns((0, m + k + 1)),
         'rows_to': lambda: A.get_rows((n - 1, n + k + 1)), 'cols_list': lambda: A.get_columns([0, m + k]),
         'sub_r': lambda: A.get_sub_matrix((0, n + k + 1), (0, m)), 'sub_c': lambda: A.get_sub_matrix((0, n), (0, m + k + 1)),
         'sub_r_list': lambda: A.get_sub_matrix([n + k], [0]), 'sub_c_list': lambda: A.get_sub_matrix([0], [0, m + k]),
         'ndim': lambda: Matrix(np.zeros((2, 2, 2)))}[case['op']]
    try:
        f()
    except Exception:
        same(A.data, a, 'matrix after a rejected ' + case['op'])
    else:
        fail('%s beyond a %d x %d matrix is not rejected', case['op'], n, m)


# --------------------------------------------------------------------------- C04 decompositions
@st.composite
def svd_cases(draw):
    return dict(a=draw(st.one_of(gens.recipe((1, 9), (1, 9)), gens.explicit((1, 4), (1, 4)))))


def orthonormal(q, what, tol=1e-10):
    k = q.shape[1]
    close(q.T @ q, np.eye(k), what, tol, 1.0)


@sub('C04', 'svd', svd_cases, quick=4500)
def c04_svd(case, ctx):
    """U*S*V equals the matrix, U has orthonormal columns, V orthonormal rows, singular values are sorted and non-negative."""
    a = gens.expand(case['a'])
    n, m = a.shape
    k = min(n, m)
    A = M(a)
    u = arr(A.svd_U(), 'svd_U', (n, k))
    s = arr(A.svd_S(), 'svd_S', (k, k))
    v = arr(A.svd_V(), 'svd_V', (k, m))
    sv = arr(A.get_singular_values(), 'singular values', (k, 1))
    close(u @ s @ v, a, 'U*S*V', 1e-11, max(mx(a), 1e-300))
    orthonormal(u, 'U')
    orthonormal(v.T, 'V')
    same(s, np.diag(sv.ravel()), 'S and the singular values')
    require((sv >= 0).all() and (np.diff(sv.ravel()) <= 1e-12 * mx(sv)).all(), 'singular values %s', short(sv))
    same(A.data, a, 'matrix after decomposing it')


@st.composite
def inv_cases(draw):
    kind = draw(st.sampled_from(['square', 'tall', 'wide', 'singular']))
    n = draw(gens.dim(1, 7, 20, (33, 64, 70)))
    k = n + draw(gens.dim(1, 4, 12, (50, 100)))
    shape = {'square': (n, n), 'tall': (k, n), 'wide': (n, k), 'singular': (n, n)}[kind]
    return dict(kind=kind, a=draw(gens.recipe(*shape, kinds=('gauss', 'int', 'pos', 'corr', 'big', 'sparse'))),
                b=draw(gens.recipe(shape[0], draw(st.integers(1, 4)))), z=draw(st.integers(0, 6)), row=draw(st.booleans()))


@sub('C04', 'inverse', inv_cases, quick=3600)
def c04_inverse(case, ctx):
    """Inverses (square), least-squares inverses (rectangular) and solutions of linear systems satisfy their equations."""
    a = gens.expand(case['a'])
    n, m = a.shape
    A = M(a)
    if case['kind'] == 'singular':
        if case['row']:
            a[case['z'] % n] = 0
        else:
            a[:, case['z'] % n] = 0
        A = M(a)
        ctx.label('singular')
        for f, w in ((lambda: A.inverse(), 'inverse'), (lambda: helper.inverse(A), 'helper.inverse'),
                     (lambda: helper.solve(A, M(np.ones((n, 1)))), 'solve')):
            try:
                f()
            except Exception:
                same(A.data, a, 'matrix after a rejected ' + w)
            else:
                fail('%s of a matrix with a zero row/column is not rejected', w)
        return
    c = cond(a)
    if c > 1e7:
        return ctx.trivial('ill-conditioned')
    ctx.label(case['kind'])
    for inv, w in ((A.inverse(), 'inverse'), (helper.inverse(A), 'helper.inverse'), (A.pseudo_inverse(), 'pseudo_inverse')):
        x = arr(inv, w, (m, n))
        tol = 1e-13 * c * max(n, m)
        if n >= m:
            close(x @ a, np.eye(m), w + ' from the left', tol, 10.0)
        if n <= m:
            close(a @ x, np.eye(n), w + ' from the right', tol, 10.0)
        p = a @ x if n > m else x @ a
        close(p, p.T, w + ': projection is symmetric', tol * c, 10.0)
    if n == m:
        b = gens.expand(case['b'])
        x = arr(helper.solve(A, M(b)), 'solve', b.shape)
        close(a @ x, b, 'solve', 1e-13 * n, max(1e-300, 10 * mx(a) * mx(x) * n + mx(b)))
        close(arr(A.inverse().inverse(), 'double inverse'), a, 'double inverse', 1e-13 * c * n, 10 * mx(a))


@st.composite
def pinv_cases(draw):
    n, m = draw(gens.dim(1, 7, 20, (50, 100))), draw(gens.dim(1, 7, 20, (33, 64)))
    k = draw(st.integers(1, min(n, m)))
    return dict(l=draw(gens.recipe(n, k, kinds=('gauss', 'int'), scales=None)), r=draw(gens.recipe(k, m, kinds=('gauss', 'int'), scales=None)),
                e=draw(st.integers(-4, 4)))


@sub('C04', 'pseudo-inverse', pinv_cases, quick=3000)
def c04_pinv(case, ctx):
    """The pseudo-inverse satisfies the four Penrose conditions, also for matrices of deficient rank."""
    l, r = gens.expand(case['l']), gens.expand(case['r'])
    k = l.shape[1]
    a = (l @ r) * 10.0 ** case['e']
    s = np.linalg.svd(a, compute_uv=False)
    rank = int((s > 1e-12 * max(s[0], 1e-300)).sum())
    if s[0] == 0 or s[rank - 1] < 1e-6 * s[0] or (rank < len(s) and s[rank] > 1e-15 * s[0]):
        return ctx.trivial('rank not clear-cut')
    ctx.label('full rank' if rank == min(a.shape) else 'deficient')
    x = arr(M(a).pseudo_inverse(), 'pseudo_inverse', a.shape[::-1])
    c = s[0] / s[rank - 1]
    tol = 1e-13 * c * max(a.shape)
    close(a @ x @ a, a, 'A*X*A', tol, 10 * mx(a))
    close(x @ a @ x, x, 'X*A*X', tol, 10 * mx(x))
    close(a @ x, (a @ x).T, 'A*X symmetric', tol, 10.0)
    close(x @ a, (x @ a).T, 'X*A symmetric', tol, 10.0)


@st.composite
def rcond_cases(draw):
    n, m = draw(st.integers(1, 7)), draw(st.integers(1, 7))
    k = min(n, m)
    return dict(u=draw(gens.recipe(n, k, kinds=('gauss',), scales=None)), v=draw(gens.recipe(m, k, kinds=('gauss',), scales=None)),
                exps=draw(st.lists(st.integers(0, 30), min_size=k, max_size=k)), cut=draw(st.one_of(st.none(), st.integers(0, 31))), e=draw(st.integers(-3, 3)))


@sub('C04', 'cut-off', rcond_cases, quick=1500)
def c04_rcond(case, ctx):
    """pseudo_inverse(rcond) inverts exactly the singular values above rcond times the largest one."""
    u, v = np.linalg.qr(gens.expand(case['u']))[0], np.linalg.qr(gens.expand(case['v']))[0]
    s = np.array([2.0 ** -x for x in case['exps']]) * 10.0 ** case['e']
    a = (u * s) @ v.T
    kept = np.ones(len(s), dtype=bool) if case['cut'] is None else s > s.max() * 2.0 ** -(case['cut'] - 0.5)
    rcond = None if case['cut'] is None else 2.0 ** -(case['cut'] - 0.5)
    if case['cut'] == 0:
        rcond, kept = 0.0, np.ones(len(s), dtype=bool)
    want = (v[:, kept] / s[kept]) @ u[:, kept].T
    A = M(a)
    got = arr(A.pseudo_inverse() if rcond is None else A.pseudo_inverse(rcond), 'pseudo_inverse', want.shape)
    c = s.max() / s[kept].min() if kept.any() else 1.0
    close(got, want, 'pseudo_inverse(%r) with the singular values %r' % (rcond, s.tolist()), 1e-13 * c * max(a.shape), 10 / s[kept].min() if kept.any() else 1.0)
    ctx.label('all kept' if kept.all() else 'some dropped')


@st.composite
def eig_cases(draw):
    n = draw(gens.dim(1, 9, 24, (33, 50, 65)))
    return dict(kind=draw(st.sampled_from(['sym', 'gram', 'deficient', 'real', 'diag'])),
                a=draw(gens.recipe(n, n, kinds=('gauss', 'int', 'pos', 'corr', 'dup'))),
                lam=draw(st.lists(st.integers(-9, 9) if n < 10 else st.integers(-80, 80), min_size=n, max_size=n, unique=True)))


@oracle
def eig_matrix(case):
    a = gens.expand(case['a'])
    n = a.shape[0]
    if case['kind'] == 'sym':
        return (a + a.T) / 2
    if case['kind'] == 'gram':
        g = a.T @ a
        return (g + g.T) / 2
    if case['kind'] == 'deficient':     # many coinciding (zero) eigenvalues
        g = a[:max(1, n // 3)].T @ a[:max(1, n // 3)]
        return (g + g.T) / 2
    if case['kind'] == 'diag':
        return np.diag([float(x) for x in case['lam']])
    p = a / max(mx(a), 1e-300) + 2 * np.eye(n)
    if cond(p) > 50:
        p = np.eye(n) + np.triu(p, 1)
    return p @ np.diag([float(x) for x in case['lam']]) @ np.linalg.inv(p)


def is_eig(a, vals, vecs, what):
    s = max(mx(a), 1e-300)
    close(a @ vecs, vecs * vals.ravel()[None, :], what + ': A*V = V*D', 1e-9, s)
    close(np.sqrt((vecs ** 2).sum(0)), np.ones(vecs.shape[1]), what + ': unit vectors', 1e-9, 1.0)


@sub('C04', 'eigen', eig_cases, quick=4500)
def c04_eigen(case, ctx):
    """Eigenvalues and -vectors of matrices with a real spectrum: real, matching pairs, complete, and correctly sorted."""
    a = eig_matrix(case)
    n = a.shape[0]
    A = M(a)
    sym = case['kind'] != 'real'
    want = np.linalg.eigvalsh(a) if sym else np.sort(np.array(case['lam'], dtype=float))
    s = max(mx(a), 1e-300)
    raw = np.linalg.eig(a)[0]
    if not sym and np.iscomplexobj(raw) and raw.imag.any():
        return ctx.trivial('rounding makes the spectrum complex')
    ctx.label(case['kind'])
    vals = arr(A.get_eigenvalues(), 'eigenvalues', (n, 1))
    vecs = arr(A.get_eigenvectors(), 'eigenvectors', (n, n))
    close(np.sort(vals.ravel()), want, 'eigenvalues', 1e-8, s)
    is_eig(a, vals, vecs, 'eigenvectors')
    if sym:
        close(vecs.T @ vecs, np.eye(n), 'eigenvectors of a symmetric matrix are orthonormal', 1e-7)
    same(arr(A.get_eigenvalue_decomposition_V(), 'V'), vecs, 'V')
    same(arr(A.get_eigenvalue_decomposition_D(), 'D'), np.diag(vals.ravel()), 'D')
    asc = arr(A.get_eigenvalues_sorted_ascending(), 'ascending', (n, 1))
    desc = arr(A.get_eigenvalues_sorted_descending(), 'descending', (n, 1))
    close(asc.ravel(), want, 'ascending', 1e-8, s)
    close(desc.ravel(), want[::-1], 'descending', 1e-8, s)
    va = arr(A.get_eigenvectors_sorted_ascending(), 'vectors ascending', (n, n))
    vd = arr(A.get_eigenvectors_sorted_descending(), 'vectors descending', (n, n))
    is_eig(a, asc, va, 'ascending')
    is_eig(a, desc, vd, 'descending')
    for v, w in ((va, 'ascending'), (vd, 'descending')):    # every vector of the decomposition occurs once
        require(np.linalg.svd(v, compute_uv=False)[-1] >= 1e-3 * np.linalg.svd(vecs, compute_uv=False)[-1] - 1e-12,
                '%s: eigenvectors are missing', w)
    is_eig(a, desc, arr(A.get_eigenvectors(True), 'dominance', (n, n)), 'get_eigenvectors(sort_dominance)')
    dom = arr(A.get_dominant_eigenvector(), 'dominant', (n, 1))
    is_eig(a, desc[:1], dom, 'dominant eigenvector')
    same(A.data, a, 'matrix after decomposing it')


# --------------------------------------------------------------------------- C05 caches over edit histories
EDITS = ('set', 'set_row', 'set_column', 'addv', 'subv', 'mulv', 'divv', 'fill_diagonal', 'swap', 'copy', 'again',
         'short_row', 'short_column', 'zero_addv', 'derive', 'derive', 'derive', 'set_vals')
DERIVE = (      # functional operations whose square result takes the place of the matrix
    lambda A, v, k: A.transpose(), lambda A, v, k: A.t(), lambda A, v, k: A.mul(v or 2.0), lambda A, v, k: A.mul(-1.5), lambda A, v, k: A.div(v or -4.0),
    lambda A, v, k: A.add(v), lambda A, v, k: A.sub(v), lambda A, v, k: A.abs(), lambda A, v, k: A.clip(-5.0, 5.0), lambda A, v, k: A.clip_lower(0.0),
    lambda A, v, k: A.clip_upper(3.0), lambda A, v, k: A.apply_elementwise(lambda x: -x), lambda A, v, k: A.pow_elementwise(2), lambda A, v, k: A.sign().mul(3.0).add(A),
    lambda A, v, k: A.add(factory.eye(k).mul(v or 1.0)), lambda A, v, k: A.sub(factory.eye(k)), lambda A, v, k: A.mul(A), lambda A, v, k: A.mul(factory.eye(k).mul(2.0)),
    lambda A, v, k: A.mul_elementwise(A), lambda A, v, k: A.add(A.transpose()), lambda A, v, k: A.get_sub_matrix((0, k), (0, k)),
    lambda A, v, k: A.get_rows(list(reversed(range(k)))), lambda A, v, k: A.get_columns(list(reversed(range(k)))), lambda A, v, k: A.get_rows((0, k)),
    lambda A, v, k: A.head(k), lambda A, v, k: A.add_by_vector(factory.range(1, k, 1)), lambda A, v, k: A.sub_by_vector(factory.range(k, 1, 1)),
    lambda A, v, k: A.mul_by_vector(factory.range(1, k, 1)), lambda A, v, k: A.scale_by_row_vector(factory.range(k, 1, 1)),
    lambda A, v, k: A.scale_by_column_vector(factory.range(k, 1, -1)), lambda A, v, k: A.normalized(), lambda A, v, k: A.inverse(),
    lambda A, v, k: A.get_eigenvalue_decomposition_V(), lambda A, v, k: A.diag().vector_to_diagonal(), lambda A, v, k: factory.create(A.data),
    lambda A, v, k: A.tanh(),
)
QUERIES = {
    'eigenvalues': lambda A: A.get_eigenvalues(), 'eigenvectors': lambda A: A.get_eigenvectors(), 'V': lambda A: A.get_eigenvalue_decomposition_V(),
    'D': lambda A: A.get_eigenvalue_decomposition_D(), 'asc': lambda A: A.get_eigenvalues_sorted_ascending(),
    'desc': lambda A: A.get_eigenvalues_sorted_descending(), 'vasc': lambda A: A.get_eigenvectors_sorted_ascending(),
    'vdesc': lambda A: A.get_eigenvectors_sorted_descending(), 'dominant': lambda A: A.get_dominant_eigenvector(),
    'svd_U': lambda A: A.svd_U(), 'svd_S': lambda A: A.svd_S(), 'svd_V': lambda A: A.svd_V(), 'sv': lambda A: A.get_singular_values(),
    'inverse': lambda A: A.inverse(), 'pinv': lambda A: A.pseudo_inverse(), 'trace': lambda A: factory.filled(1, 1, A.trace()),
    'norm2': lambda A: factory.filled(1, 1, A.norm2()), 'sum': lambda A: A.sum(0), 'mean': lambda A: A.mean(1),
}


@st.composite
def cache_cases(draw):
    n = draw(gens.dim(1, 5, 12))
    step = st.one_of(
        st.fixed_dictionaries(dict(q=st.sampled_from(sorted(QUERIES)), w=st.booleans())),
        st.fixed_dictionaries(dict(e=st.sampled_from(EDITS), r=st.integers(0, 35), c=st.integers(0, 11), tup=st.booleans(),
                                   v=st.sampled_from([0.0, 1.0, -2.0, 3.5, 10.0]))))
    return dict(a=draw(gens.recipe(n, n, kinds=('gauss', 'int', 'pos', 'sparse'), scales=None)), steps=draw(st.lists(step, min_size=2, max_size=12)))


def agree(got, want, what):
    g, w = got.data, want.data
    if g.shape != w.shape or not np.array_equal(g, w):
        require(g.shape == w.shape and np.iscomplexobj(g) == np.iscomplexobj(w) and bool(np.all(np.abs(g - w) <= 1e-7 * mx(w))),
                '%s\n got  %s\n want %s', what, short(g), short(w))


@sub('C05', 'coherence', cache_cases, quick=10000)
def c05(case, ctx):
    """Whatever was asked before and edited since, every decomposition is that of the current elements."""
    a = gens.expand(case['a'])
    n = a.shape[0]
    a = a + np.diag(np.arange(1.0, n + 1) * 5)
    A = M(a)
    seen_query = stale = False
    others = []
    for k, o in enumerate(case['steps']):
        if 'q' in o:
            what = 'step %d: %s' % (k, o['q'])
            fresh = M(np.array(A.data, copy=True))
            try:
                want = QUERIES[o['q']](fresh)
            except Exception:
                want = None          # e.g. singular, complex spectrum: not decidable here
            if want is None or not np.isfinite(want.data).all():
                try:
                    QUERIES[o['q']](A)
                except Exception:
                    pass
                continue
            got = QUERIES[o['q']](A)
            agree(got, want, what + ' differs from a fresh matrix with the same elements')
            seen_query = True
            if o['w']:      # a caller may write to what it was given
                for i in range(got.num_rows()):
                    for j in range(got.num_columns()):
                        got.data[i, j] = 1e6
                agree(QUERIES[o['q']](A), want, what + ' after writing to the returned matrix')
        else:
            e, r, c, v = o['e'], o['r'] % n, o['c'] % n, o['v']
            vec = np.array([[float(1 + (x * 3 + o['r']) % 4) for x in range(n)]])
            V = M(vec if o['tup'] else vec.T)
            if e == 'derive':
                try:
                    D = DERIVE[o['r'] % len(DERIVE)](A, v, n)
                except Exception:       # singular, complex spectrum
                    continue
                if not (np.isrealobj(D.data) and np.isfinite(D.data).all() and 1e-6 < mx(D.data) < 1e6):
                    continue
                others.append((A, np.array(A.data, copy=True)))
                A = D
            elif e == 'short_row':      # a vector shorter than the row replaces its beginning
                A.set_row(r, M([[v] * max(1, c)]))
            elif e == 'short_column':
                A.set_column(c, M([[v]] * max(1, r)))
            elif e == 'zero_addv':
                (A.add_by_vector_modify if o['tup'] else A.mul_by_vector_modify)(M(np.zeros((n, 1) if v else (1, n))))
            elif e == 'set_vals':       # a whole column, element by element
                for k2 in range(n):
                    A.set(k2, c, v + k2)
            elif e == 'set':
                A.set(r, c, v)
            elif e == 'again':      # the same element twice, first to zero
                A.set(r, c, 0.0)
                if A.num_rows() < 6:
                    A.get_eigenvalues()
                    A.get_singular_values()
                A.set(r, c, v)
            elif e == 'swap':       # neither the sum nor the set of the elements changes
                x, y = A.get(r, c), A.get(c, (r + 1) % n)
                A.set(r, c, y)
                A.set(c, (r + 1) % n, x)
            elif e == 'copy':       # go on with a copy; the original is looked at again in the end
                others.append((A, np.array(A.data, copy=True)))
                A = A.copy()
            elif e == 'set_row':
                A.set_row(r, V)
            elif e == 'set_column':
                A.set_column(c, V)
            elif e == 'fill_diagonal':
                helper.fill_diagonal(A, v)
            else:
                {'addv': A.add_by_vector_modify, 'subv': A.sub_by_vector_modify, 'mulv': A.mul_by_vector_modify,
                 'divv': A.div_by_vector_modify}[e](V)
            stale = stale or seen_query
            ctx.label(e)
    for B, b in others + [(A, np.array(A.data, copy=True))]:
        same(B.data, b, 'a matrix after editing a copy of it')
        for q in ('eigenvalues', 'vdesc', 'D', 'svd_U', 'sv'):
            try:
                want = QUERIES[q](M(b))
            except Exception:
                continue
            if np.isfinite(want.data).all():
                agree(QUERIES[q](B), want, 'in the end: %s differs from a fresh matrix with the same elements' % q)
    if not stale:
        ctx.trivial('no edit after a query')
