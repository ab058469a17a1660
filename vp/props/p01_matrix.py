"""C01 matrix arithmetic, C02 operands are never touched, C06 factories, C09 helpers and utilities."""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from wai.ma.core.matrix import Matrix, factory, helper
from wai.ma.core import utils

from .. import gens
from ..engine import fail, oracle, require, sub
from ..ref import arr, close, mx, same, short, ordered


def M(a):
    return factory.create(ordered(a))


# --------------------------------------------------------------------------- operation table
# name -> (what the operands look like, call on Matrix operands, numpy reference)
# operand shapes: 'nm' the matrix itself; 'same' same shape; 'mk' multiplicable; 'row'/'col' vectors that fit;
# 'colm' a column vector with one element per column; 'len' a vector with as many elements as the (vector) matrix

def _clip(a, lo, hi):
    return np.minimum(np.maximum(a, lo), hi)


def _norm2(a):
    f = math.sqrt(math.fsum(float(x) ** 2 for x in a.ravel()))
    return f if 1 in a.shape else f / math.sqrt(min(a.shape))


MATOPS = {
    'add': ('same', lambda A, B: A.add(B), lambda a, b: a + b),
    'sub': ('same', lambda A, B: A.sub(B), lambda a, b: a - b),
    'mul': ('mk', lambda A, B: A.mul(B), lambda a, b: np.einsum('ij,jk->ik', a, b)),
    'mul_elementwise': ('same', lambda A, B: A.mul_elementwise(B), lambda a, b: a * b),
    'div_elementwise': ('same!', lambda A, B: A.div_elementwise(B), lambda a, b: a / b),
    'scale_by_row_vector': ('colm', lambda A, B: A.scale_by_row_vector(B), lambda a, b: a * b.ravel()[None, :]),
    'scale_by_column_vector': ('col', lambda A, B: A.scale_by_column_vector(B), lambda a, b: a * b.ravel()[:, None]),
    'add_by_row': ('row', lambda A, B: A.add_by_vector(B), lambda a, b: a + b.ravel()[None, :]),
    'sub_by_row': ('row', lambda A, B: A.sub_by_vector(B), lambda a, b: a - b.ravel()[None, :]),
    'mul_by_row': ('row', lambda A, B: A.mul_by_vector(B), lambda a, b: a * b.ravel()[None, :]),
    'add_by_col': ('col', lambda A, B: A.add_by_vector(B), lambda a, b: a + b.ravel()[:, None]),
    'sub_by_col': ('col', lambda A, B: A.sub_by_vector(B), lambda a, b: a - b.ravel()[:, None]),
    'mul_by_col': ('col', lambda A, B: A.mul_by_vector(B), lambda a, b: a * b.ravel()[:, None]),
    'concat_rows': ('cols=', lambda A, B: A.concat_along_rows(B), lambda a, b: np.array(list(a) + list(b))),
    'concat_cols': ('rows=', lambda A, B: A.concat_along_columns(B),
                    lambda a, b: np.array([list(x) + list(y) for x, y in zip(a, b)])),
    'concat0': ('cols=', lambda A, B: A.concat(B, 0), lambda a, b: np.array(list(a) + list(b))),
    'concat1': ('rows=', lambda A, B: A.concat(B, 1), lambda a, b: np.array([list(x) + list(y) for x, y in zip(a, b)])),
    'multi_concat0': ('cols=', lambda A, B: helper.multi_concat(0, A, B, A), lambda a, b: np.array(list(a) + list(b) + list(a))),
    'multi_concat_one': ('same', lambda A, B: helper.multi_concat(0, A), lambda a, b: a),
    'multi_concat1': ('rows=', lambda A, B: helper.multi_concat(1, A, B, A),
                      lambda a, b: np.array([list(x) + list(y) + list(x) for x, y in zip(a, b)])),
}

MODOPS = {  # in place on the first operand
    'add_by_row!': ('row', lambda A, B: A.add_by_vector_modify(B), lambda a, b: a + b.ravel()[None, :]),
    'sub_by_row!': ('row', lambda A, B: A.sub_by_vector_modify(B), lambda a, b: a - b.ravel()[None, :]),
    'mul_by_row!': ('row', lambda A, B: A.mul_by_vector_modify(B), lambda a, b: a * b.ravel()[None, :]),
    'div_by_row!': ('row!', lambda A, B: A.div_by_vector_modify(B), lambda a, b: a / b.ravel()[None, :]),
    'add_by_col!': ('col', lambda A, B: A.add_by_vector_modify(B), lambda a, b: a + b.ravel()[:, None]),
    'sub_by_col!': ('col', lambda A, B: A.sub_by_vector_modify(B), lambda a, b: a - b.ravel()[:, None]),
    'mul_by_col!': ('col', lambda A, B: A.mul_by_vector_modify(B), lambda a, b: a * b.ravel()[:, None]),
    'div_by_col!': ('col!', lambda A, B: A.div_by_vector_modify(B), lambda a, b: a / b.ravel()[:, None]),
}

SCALAROPS = {
    'add_s': (lambda A, s: A.add(s), lambda a, s: a + s),
    'sub_s': (lambda A, s: A.sub(s), lambda a, s: a - s),
    'mul_s': (lambda A, s: A.mul(s), lambda a, s: a * s),
    'div_s': (lambda A, s: A.div(s if s else 1.0), lambda a, s: a / (s if s else 1.0)),
    'clip_lower': (lambda A, s: A.clip_lower(s), lambda a, s: np.maximum(a, s)),
    'clip_upper': (lambda A, s: A.clip_upper(s), lambda a, s: np.minimum(a, s)),
    'clip': (lambda A, s: A.clip(s, s + 2), lambda a, s: _clip(a, s, s + 2)),
    'clip_narrow': (lambda A, s: A.clip(s, s), lambda a, s: np.full_like(a, s)),
    'pow2': (lambda A, s: A.pow_elementwise(2), lambda a, s: a * a),
    'pow3': (lambda A, s: A.pow_elementwise(3), lambda a, s: a * a * a),
    'pow_half': (lambda A, s: A.abs().pow_elementwise(0.5), lambda a, s: np.sqrt(np.abs(a))),
    'apply': (lambda A, s: A.apply_elementwise(lambda x: 3 * x - s), lambda a, s: 3 * a - s),
}

UNOPS = {
    'abs': (lambda A: A.abs(), np.abs),
    'sign': (lambda A: A.sign(), lambda a: (a > 0).astype(float) - (a < 0).astype(float)),
    'sqrt_abs': (lambda A: A.abs().sqrt(), lambda a: np.sqrt(np.abs(a))),
    'tanh': (lambda A: A.tanh(), lambda a: np.tanh(a)),
    'exp_neg': (lambda A: A.abs().mul(-1).exp(), lambda a: np.exp(-np.abs(a))),
    'transpose': (lambda A: A.transpose(), lambda a: np.array([[a[i, j] for i in range(a.shape[0])] for j in range(a.shape[1])])),
    't': (lambda A: A.t(), lambda a: np.array([[a[i, j] for i in range(a.shape[0])] for j in range(a.shape[1])])),
    'copy': (lambda A: A.copy(), lambda a: a.copy()),
    'sum0': (lambda A: A.sum(0), lambda a: np.array([[math.fsum(c) for c in a.T]])),
    'sum1': (lambda A: A.sum(1), lambda a: np.array([[math.fsum(r)] for r in a])),
    'sum-1': (lambda A: A.sum(-1), lambda a: np.array([[math.fsum(a.ravel())]])),
    'mean0': (lambda A: A.mean(0), lambda a: np.array([[math.fsum(c) / len(c) for c in a.T]])),
    'mean1': (lambda A: A.mean(1), lambda a: np.array([[math.fsum(r) / len(r)] for r in a])),
    'mean-1': (lambda A: A.mean(-1), lambda a: np.array([[math.fsum(a.ravel()) / a.size]])),
    'diag': (lambda A: A.diag(), lambda a: np.array([[a[i, i]] for i in range(min(a.shape))])),
    'row_means': (lambda A: helper.row_means(A), lambda a: np.array([[math.fsum(r) / len(r)] for r in a])),
    'column_means': (lambda A: helper.column_means(A), lambda a: np.array([[math.fsum(c) / len(c) for c in a.T]])),
}

REALOPS = {
    'sum': (lambda A: A.sum(), lambda a: math.fsum(a.ravel())),
    'mean': (lambda A: A.mean(), lambda a: math.fsum(a.ravel()) / a.size),
    'max': (lambda A: A.max(), lambda a: max(a.ravel().tolist())),
    'median': (lambda A: A.median(), lambda a: _median(a.ravel().tolist())),
    'trace': (lambda A: A.trace(), lambda a: math.fsum(a[i, i] for i in range(min(a.shape)))),
    'norm1': (lambda A: A.norm1(), lambda a: math.fsum(abs(x) for x in a.ravel())),
    'norm2': (lambda A: A.norm2(), _norm2),
    'norm2_squared': (lambda A: A.norm2_squared(), lambda a: _norm2(a) ** 2),
    'num_elements': (lambda A: A.num_elements(), lambda a: a.shape[0] * a.shape[1]),
}


def _median(v):
    v = sorted(v)
    n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


def second_shape(kind, n, m, k):
    kind = kind.rstrip('!')
    return {'same': (n, m), 'mk': (m, k), 'row': (1, m), 'col': (n, 1), 'colm': (m, 1), 'cols=': (k, m),
            'rows=': (n, k)}[kind]


@st.composite
def binary_cases(draw, table):
    op = draw(st.sampled_from(sorted(table)))
    n, m, k = draw(gens.dim(1, 7, 24, gens.HUGE)), draw(gens.dim(1, 7, 24, gens.HUGE)), draw(gens.dim(1, 5, 12))
    alias = draw(gens.seldom(6))     # one object as both operands
    if alias:
        n, m = alias_shape(table[op][0], n, m)
    r, c = second_shape(table[op][0], n, m, k)
    a = draw(gens.anymat(n, m))
    return dict(op=op, a=a, b=a, alias=True) if alias else dict(op=op, a=a, b=draw(gens.anymat(r, c)))


def alias_shape(kind, n, m):
    return {'mk': (n, n), 'row': (1, m), 'col': (n, 1), 'colm': (1, 1)}.get(kind.rstrip('!'), (n, m))


@oracle
def operands(case, nonzero):
    a, b = gens.expand(case['a']), gens.expand(case['b'])
    if nonzero:
        b = np.where(np.abs(b) < 1e-6, 1.5, b)
    if case.get('alias'):
        a = b.copy()
    return a, b


@oracle
def reference(fn, *args):
    return np.asarray(fn(*[np.array(x, copy=True) if isinstance(x, np.ndarray) else x for x in args]), dtype=float)


def elementwise(got, want, what):
    """Element-wise results agree to a few ulps, element by element."""
    require(got.shape == want.shape, '%s: shape %r, expected %r', what, got.shape, want.shape)
    bad = np.abs(got - want) > 1e-13 * np.abs(want) + 1e-300
    if bad.any() or not np.isfinite(got).all():
        fail('%s:\n got  %s\n want %s', what, short(got), short(want))


def accum(got, want, what, a, b=None):
    """Results of sums/products: error bounded relative to the sum of magnitudes."""
    s = mx(a) * (1 if b is None else mx(b)) * max(a.shape + (() if b is None else b.shape))
    close(got, want, what, 1e-12, max(s, mx(want)))


@sub('C01', 'binary', lambda: binary_cases(MATOPS), quick=6000)
def c01_binary(case, ctx):
    """Two-operand operations equal their element-by-element definition."""
    kind, call, ref = MATOPS[case['op']]
    a, b = operands(case, kind.endswith('!'))
    want = reference(ref, a, b)
    A = M(a)
    got = arr(call(A, A if case.get('alias') else M(b)), case['op'])
    ctx.label(case['op'], *(['one object twice'] if case.get('alias') else []))
    if case['op'] == 'mul':
        accum(got, want, 'mul', a, b)
    else:
        elementwise(got, want, case['op'])


@sub('C01', 'in-place', lambda: binary_cases(MODOPS), quick=2000)
def c01_inplace(case, ctx):
    """In-place vector operations change the matrix to the element-by-element definition."""
    kind, call, ref = MODOPS[case['op']]
    a, b = operands(case, kind.endswith('!'))
    want = reference(ref, a, b)
    A = M(a)
    call(A, A if case.get('alias') else M(b))
    elementwise(arr(A, case['op']), want, case['op'])
    ctx.label(case['op'], *(['one object twice'] if case.get('alias') else []))


@st.composite
def multi_cases(draw):
    axis, k = draw(st.sampled_from([0, 1])), draw(st.integers(1, 5))
    mats = [draw(gens.explicit((1, 3), k) if axis == 0 else gens.explicit(k, (1, 3))) for _ in range(draw(st.integers(1, 4)))]
    return dict(axis=axis, mats=mats, order=draw(st.lists(st.integers(0, len(mats) - 1), min_size=1, max_size=8)))


@sub('C01', 'multi-concat', multi_cases, quick=500)
def c01_multi(case, ctx):
    """multi_concat lines up all its matrices in the given order, one that occurs several times as often as it occurs."""
    mats = [gens.expand(s) for s in case['mats']]
    objs = [M(a) for a in mats]
    lines = [ln for k in case['order'] for ln in (mats[k].tolist() if case['axis'] == 0 else mats[k].T.tolist())]
    want = np.array(lines) if case['axis'] == 0 else np.array(lines).T
    res = helper.multi_concat(case['axis'], *[objs[k] for k in case['order']])
    elementwise(arr(res, 'multi_concat'), want, 'multi_concat(%d) of %r' % (case['axis'], case['order']))
    for i in range(res.num_rows()):
        for j in range(res.num_columns()):
            res.set(i, j, 777.0)
    for k, a in enumerate(mats):
        same(objs[k].data, a, 'operand %d of multi_concat, after writing to the result' % k)
    if len(case['order']) < 2:
        ctx.trivial('one matrix')


@st.composite
def scalar_cases(draw):
    return dict(op=draw(st.sampled_from(sorted(SCALAROPS))), a=draw(gens.anymat((1, 7), (1, 7))),
                s=draw(gens.values()))


@sub('C01', 'scalar', scalar_cases, quick=1000)
def c01_scalar(case, ctx):
    """Scalar operations, clipping and element-wise application equal their definition."""
    call, ref = SCALAROPS[case['op']]
    a = gens.expand(case['a'])
    want = reference(ref, a, case['s'])
    if not np.isfinite(want).all():
        return ctx.trivial('overflow')
    elementwise(arr(call(M(a), case['s']), case['op']), want, case['op'])
    ctx.label(case['op'])


@st.composite
def unary_cases(draw):
    return dict(op=draw(st.sampled_from(sorted(UNOPS) + sorted(REALOPS))), a=draw(gens.anymat((1, 8), (1, 8))))


@sub('C01', 'unary', unary_cases, quick=4000)
def c01_unary(case, ctx):
    """Element functions, transposition, reductions and norms equal their definition."""
    a = gens.expand(case['a'])
    op = case['op']
    ctx.label(op)
    if op in UNOPS:
        call, ref = UNOPS[op]
        want = reference(ref, a)
        got = arr(call(M(a)), op)
        if op[:3] in ('sum', 'mea') or 'means' in op:
            accum(got, want, op, a)
        elif op in ('tanh', 'exp_neg'):
            close(got, want, op, 1e-12, 1.0)
            require(np.allclose(got, want, rtol=1e-9, atol=1e-300), '%s:\n got %s\n want %s', op, short(got), short(want))
        else:
            elementwise(got, want, op)
    else:
        call, ref = REALOPS[op]
        want = reference(ref, a)
        got = call(M(a))
        require(np.ndim(got) == 0 and np.isrealobj(np.asarray(got)), '%s is not a real number: %r', op, got)
        tol = max(mx(a) * a.size, abs(float(want)))
        require(abs(float(got) - float(want)) <= 1e-12 * tol, '%s = %r, expected %r', op, got, float(want))


@st.composite
def stat_cases(draw):
    return dict(a=draw(gens.anymat((2, 8), (2, 8))), i=draw(st.integers(0, 7)))


@oracle
def exact_std(v):
    f = [Fraction(float(x)) for x in v]
    mu = sum(f) / len(f)
    return math.sqrt(float(sum((x - mu) ** 2 for x in f) / (len(f) - 1)))


@sub('C01', 'statistics', stat_cases, quick=500)
def c01_stats(case, ctx):
    """Row/column means and sample standard deviations equal exact rational arithmetic."""
    a = gens.expand(case['a'])
    n, m = a.shape
    i, j = case['i'] % n, case['i'] % m
    A = M(a)
    s = max(mx(a), 1e-300)
    rs = arr(helper.row_stdevs(A), 'row_stdevs', (n, 1))
    cs = arr(helper.column_stdevs(A), 'column_stdevs', (1, m))
    close(rs, [[exact_std(r)] for r in a], 'row_stdevs', 1e-7, s)
    close(cs, [[exact_std(c) for c in a.T]], 'column_stdevs', 1e-7, s)
    for got, want, what in (
            (helper.mean(A, j), math.fsum(a[:, j]) / n, 'mean'), (helper.mean(A, i, False), math.fsum(a[i]) / m, 'row mean'),
            (helper.column_mean(A, j), math.fsum(a[:, j]) / n, 'column_mean'), (helper.row_mean(A, i), math.fsum(a[i]) / m, 'row_mean'),
            (helper.stdev(A, j), exact_std(a[:, j]), 'stdev'), (helper.stdev(A, i, False), exact_std(a[i]), 'row stdev'),
            (helper.column_stdev(A, j), exact_std(a[:, j]), 'column_stdev'), (helper.row_stdev(A, i), exact_std(a[i]), 'row_stdev')):
        require(abs(float(got) - want) <= 1e-7 * s, '%s(%d/%d) = %r, expected %r', what, i, j, got, want)


@st.composite
def vec_cases(draw):
    k = draw(st.integers(1, 8))
    return dict(a=draw(gens.anymat(1, k)), b=draw(gens.anymat(1, k)), ta=draw(st.booleans()), tb=draw(st.booleans()))


@sub('C01', 'vectors', vec_cases, quick=600)
def c01_vec(case, ctx):
    """Dot products, element access, diagonals and norms of vectors in either orientation."""
    a, b = gens.expand(case['a']), gens.expand(case['b'])
    k = a.size
    va, vb = a.ravel(), b.ravel()
    A = M(a.T if case['ta'] else a)
    B = M(b.T if case['tb'] else b)
    want = math.fsum(float(x) * float(y) for x, y in zip(va, vb))
    got = A.vector_dot(B)
    require(np.ndim(got) == 0, 'vector_dot is not a number')
    require(abs(got - want) <= 1e-12 * max(mx(a) * mx(b) * k, 1e-300), 'vector_dot = %r, expected %r', got, want)
    for i in range(k):
        require(A.get_from_vector(i) == va[i], 'get_from_vector(%d) = %r, expected %r', i, A.get_from_vector(i), va[i])
    same(arr(A.vector_to_diagonal(), 'vector_to_diagonal'), np.array([[va[i] if i == j else 0.0 for j in range(k)] for i in range(k)]),
         'vector_to_diagonal')
    t = float(va[0])
    require(A.where_vector(lambda x: x >= t) == [i for i in range(k) if va[i] >= t], 'where_vector')
    require(A.is_vector() and A.is_row_vector() == (k == 1 or not case['ta']) and A.is_column_vector() == (k == 1 or case['ta']),
            'orientation predicates of a %d x %d matrix', *A.data.shape)


@st.composite
def norm_cases(draw):
    return dict(a=draw(gens.anymat((1, 7), (1, 7))), axis=draw(st.sampled_from([0, 1])), e=draw(st.sampled_from([0, 0, 0, -12, 9])))


SPECIALS = [float('inf'), float('-inf'), 1e300, -1e300, 5e-324, -0.0, 0.0, 1e-200, -1e-12, 1e-9, 1e16, 1.0, -2.0, 3.5, -7.25]
SPECIAL_OPS = {
    'add': (lambda A, B: A.add(B), lambda x, y: x + y), 'sub': (lambda A, B: A.sub(B), lambda x, y: x - y),
    'mul_elementwise': (lambda A, B: A.mul_elementwise(B), lambda x, y: x * y),
    'div_elementwise': (lambda A, B: A.div_elementwise(B), lambda x, y: x / y),
    'abs': (lambda A, B: A.abs(), lambda x, y: x if x > 0 else 0.0 - x), 'copy': (lambda A, B: A.copy(), lambda x, y: x),
    'sign': (lambda A, B: A.sign(), lambda x, y: float(x > 0) - float(x < 0)),
    'clip': (lambda A, B: A.clip(-1e-10, 5), lambda x, y: -1e-10 if x < -1e-10 else 5.0 if x > 5 else x),
    'clip_lower': (lambda A, B: A.clip_lower(-3), lambda x, y: -3.0 if x < -3 else x),
    'clip_upper': (lambda A, B: A.clip_upper(1e-11), lambda x, y: 1e-11 if x > 1e-11 else x),
    'exp': (lambda A, B: A.exp(), lambda x, y: np.exp(x)), 'tanh': (lambda A, B: A.tanh(), lambda x, y: np.tanh(x)),
    'sqrt_abs': (lambda A, B: A.abs().sqrt(), lambda x, y: np.sqrt(abs(x))),
    'pow2': (lambda A, B: A.pow_elementwise(2), lambda x, y: x * x), 'pow0': (lambda A, B: A.pow_elementwise(0), lambda x, y: 1.0),
    'pow1': (lambda A, B: A.pow_elementwise(1), lambda x, y: x), 'pow-1': (lambda A, B: A.pow_elementwise(-1), lambda x, y: 1.0 / x),
    'div_s': (lambda A, B: A.div(4), lambda x, y: x / 4), 'mul_s': (lambda A, B: A.mul(-2), lambda x, y: x * -2),
    'add_s': (lambda A, B: A.add(1e-3), lambda x, y: x + 1e-3), 'apply': (lambda A, B: A.apply_elementwise(lambda x: -x), lambda x, y: -x),
}


@st.composite
def special_cases(draw):
    n, m = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    el = st.one_of(st.sampled_from(SPECIALS), st.integers(-800, 800).map(float))
    return dict(op=draw(st.sampled_from(sorted(SPECIAL_OPS))), a=draw(gens.explicit(n, m, el)), b=draw(gens.explicit(n, m, el)))


@sub('C01', 'extremes', special_cases, quick=2000)
def c01_extremes(case, ctx):
    """Infinite, huge, tiny and zero elements follow floating-point arithmetic element by element."""
    call, ref = SPECIAL_OPS[case['op']]
    a, b = gens.expand(case['a']), gens.expand(case['b'])
    with np.errstate(all='ignore'):
        want = np.array([[ref(x, y) for x, y in zip(r, q)] for r, q in zip(a, b)], dtype=float)
        got = arr(call(M(a), M(b)), case['op'], a.shape, finite=False)
    ok = (got == want) | (np.isnan(got) & np.isnan(want))
    with np.errstate(all='ignore'):
        ok |= np.isfinite(got) & np.isfinite(want) & (np.abs(got - want) <= 1e-12 * np.abs(want) + 1e-320)
    require(bool(ok.all()), '%s of %s and %s:\n got  %s\n want %s', case['op'], short(a), short(b), short(got), short(want))
    ctx.label(case['op'])


@sub('C01', 'normalized', norm_cases, quick=400)
def c01_normalized(case, ctx):
    """Normalising makes every column/row a unit vector in the same direction."""
    a = gens.expand(case['a']) * 10.0 ** case.get('e', 0)
    ax = case['axis']
    norms = np.sqrt((a * a).sum(axis=ax, keepdims=True))
    if norms.min() < 1e-9 * max(1e-300, mx(a)) or norms.min() == 0:
        return ctx.trivial('zero vector')
    got = arr(M(a).normalized(ax), 'normalized', a.shape)
    close(got, a / norms, 'normalized(%d)' % ax, 1e-12, 1.0)
    if ax == 0:
        close(arr(M(a).normalized(), 'normalized()'), a / norms, 'normalized()', 1e-12, 1.0)


# --------------------------------------------------------------------------- rejected shapes
@st.composite
def reject_cases(draw):
    op = draw(st.sampled_from(sorted(set(MATOPS) - {'multi_concat_one'}) + sorted(MODOPS) + ['vector_dot', 'as_real', 'clip', 'sum_axis', 'mean_axis', 'get',
                                                               'vector_to_diagonal', 'get_from_vector', 'where_vector', 'set_row',
                                                               'set_column']))
    n, m = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    # shapes which nearly fit: a single row or column, or one dimension in common
    near = st.one_of(st.sampled_from([1, n, m]), st.integers(1, 5))
    r, c = draw(near), draw(near)
    return dict(op=op, a=draw(gens.explicit(n, m)), b=draw(gens.explicit(r, c)), x=draw(st.integers(2, 9)))


@sub('C01', 'rejects', reject_cases, quick=4000)
def c01_rejects(case, ctx):
    """Operands whose shapes do not fit are rejected with an exception and stay unchanged; nothing is broadcast silently."""
    a, b = gens.expand(case['a']), gens.expand(case['b'])
    n, m = a.shape
    r, c = b.shape
    A, B = M(a), M(b)
    op = case['op']
    x = case['x']
    vec = 1 in b.shape
    fits_vec = (r == 1 and c == m) or (c == 1 and r == n)
    if op in MATOPS or op in MODOPS:
        kind, call, _ = (MATOPS.get(op) or MODOPS.get(op))
        kind = kind.rstrip('!')
        ok = {'same': (r, c) == (n, m), 'mk': r == m, 'row': vec and fits_vec, 'col': vec and fits_vec, 'colm': c == 1 and r == m,
              'cols=': c == m, 'rows=': r == n}[kind]
        if op == 'scale_by_column_vector':
            ok = c == 1 and r == n
        f = lambda: call(A, B)
    elif op == 'vector_dot':
        ok = 1 in a.shape and vec and a.size == b.size
        f = lambda: A.vector_dot(B)
    elif op == 'as_real':
        ok = a.size == 1
        f = lambda: A.as_real()
    elif op == 'clip':
        ok = False
        f = lambda: A.clip(x, -x)
    elif op == 'sum_axis':
        ok = False
        f = lambda: A.sum(x)
    elif op == 'mean_axis':
        ok = False
        f = lambda: A.mean(x)
    elif op == 'get':
        ok = n > x and m > r
        f = lambda: A.get(x, r)
    elif op in ('vector_to_diagonal', 'get_from_vector', 'where_vector'):
        ok = 1 in a.shape
        f = {'vector_to_diagonal': lambda: A.vector_to_diagonal(), 'get_from_vector': lambda: A.get_from_vector(0),
             'where_vector': lambda: A.where_vector(lambda v: True)}[op]
    else:
        ok = vec
        f = {'set_row': lambda: A.set_row(0, B), 'set_column': lambda: A.set_column(0, B)}[op]
    if ok:
        ctx.trivial('shapes fit')
        f()
        return
    ctx.label(op)
    try:
        res = f()
    except Exception:
        res = None
    else:
        fail('%s of %r and %r is not rejected: %r', op, a.shape, b.shape, getattr(res, 'data', res))
    same(A.data, a, 'first operand after a rejected %s' % op)
    same(B.data, b, 'second operand after a rejected %s' % op)


# --------------------------------------------------------------------------- C02 purity
def _pure_ops():
    ops = {}
    for k, (kind, call, _) in MATOPS.items():
        ops[k] = (kind, call)
    for k, (call, _) in SCALAROPS.items():
        for s in (0.5, 0.0, 1.0, -1.0, 1, 0, float('inf'), float('-inf')):
            if (k in ('apply', 'clip', 'clip_narrow') or not np.isfinite(s)) and s != 0.5 and not (
                    k in ('clip_lower', 'clip_upper') and not np.isfinite(s)):
                continue
            ops['%s(%r)' % (k, s)] = ('nm', lambda A, B, call=call, s=s: call(A, s))
    for k, (call, _) in UNOPS.items():
        ops[k] = ('nm', lambda A, B, call=call: call(A))
    for k, f in {
        'normalized0': lambda A, B: A.normalized(0), 'normalized1': lambda A, B: A.normalized(1),
        'get_row': lambda A, B: A.get_row(A.num_rows() - 1), 'get_column': lambda A, B: A.get_column(A.num_columns() - 1),
        'get_rows': lambda A, B: A.get_rows((0, A.num_rows())), 'get_columns': lambda A, B: A.get_columns((0, A.num_columns())),
        'get_rows_list': lambda A, B: A.get_rows(list(range(A.num_rows()))),
        'get_sub_matrix': lambda A, B: A.get_sub_matrix((0, A.num_rows()), (0, A.num_columns())),
        'get_sub_matrix_list': lambda A, B: A.get_sub_matrix([0], list(range(A.num_columns()))),
        'head': lambda A, B: A.head(), 'head2': lambda A, B: A.head(2),
        'svd_U': lambda A, B: A.svd_U(), 'svd_S': lambda A, B: A.svd_S(), 'svd_V': lambda A, B: A.svd_V(),
        'singular': lambda A, B: A.get_singular_values(), 'pinv': lambda A, B: A.pseudo_inverse(),
        'create': lambda A, B: factory.create(A.data), 'from_raw': lambda A, B: factory.from_raw(A.data),
        'create_list': lambda A, B: factory.create(A.to_raw_copy_2D()),
        'delete_col': lambda A, B: helper.delete_col(A, 0), 'delete_none': lambda A, B: helper.delete_cols(A, []),
        'row_as_vector': lambda A, B: helper.row_as_vector(A, 0), 'column_as_vector': lambda A, B: helper.column_as_vector(A, 0),
        'pow1': lambda A, B: A.pow_elementwise(1), 'pow0': lambda A, B: A.pow_elementwise(0),
        'same': lambda A, B: A.apply_elementwise(lambda x: x), 'abs of abs': lambda A, B: A.abs().abs(),
        'clip wide': lambda A, B: A.clip(-1e300, 1e300),
        'mul by identity': lambda A, B: A.mul(factory.eye(A.num_columns())), 'add zeros': lambda A, B: A.add(factory.zeros_like(A)),
        'sub zeros': lambda A, B: A.sub(factory.zeros_like(A)),
        'mul ones': lambda A, B: A.mul_elementwise(factory.filled_like(A, 1)), 'div ones': lambda A, B: A.div_elementwise(factory.filled_like(A, 1)),
        'scale by ones': lambda A, B: A.scale_by_row_vector(factory.filled(A.num_columns(), 1, 1)),
        'scale columns by ones': lambda A, B: A.scale_by_column_vector(factory.filled(A.num_rows(), 1, 1)),
        'add zero vector': lambda A, B: A.add_by_vector(factory.zeros(1, A.num_columns())),
        'head all': lambda A, B: A.head(A.num_rows() + 3), 'transpose twice': lambda A, B: A.transpose().transpose(),
        'get_columns_list': lambda A, B: A.get_columns(list(range(A.num_columns()))),
        'with no columns': lambda A, B: A.concat_along_columns(Matrix(np.zeros((A.num_rows(), 0)))),
        'with no rows': lambda A, B: A.concat_along_rows(Matrix(np.zeros((0, A.num_columns())))),
        'zeros_like': lambda A, B: factory.zeros_like(A), 'eye_like': lambda A, B: factory.eye_like(A),
        'filled_like': lambda A, B: factory.filled_like(A, 2), 'rand_like': lambda A, B: factory.rand_like(A, 1),
    }.items():
        ops[k] = ('nm', f)
    for k, f in {
        'eigenvectors': lambda A, B: A.get_eigenvectors(), 'eigenvectors_dom': lambda A, B: A.get_eigenvectors(True),
        'eigenvalues': lambda A, B: A.get_eigenvalues(), 'eigD': lambda A, B: A.get_eigenvalue_decomposition_D(),
        'eigV': lambda A, B: A.get_eigenvalue_decomposition_V(), 'dominant': lambda A, B: A.get_dominant_eigenvector(),
        'eig_asc': lambda A, B: A.get_eigenvalues_sorted_ascending(), 'eig_desc': lambda A, B: A.get_eigenvalues_sorted_descending(),
        'eigvec_asc': lambda A, B: A.get_eigenvectors_sorted_ascending(),
        'eigvec_desc': lambda A, B: A.get_eigenvectors_sorted_descending(),
        'inverse': lambda A, B: A.inverse(), 'helper_inverse': lambda A, B: helper.inverse(A), 'solve': lambda A, B: helper.solve(A, A),
    }.items():
        ops[k] = ('sq', f)
    return ops


PURE = _pure_ops()


@st.composite
def pure_cases(draw):
    op = draw(st.sampled_from(sorted(PURE)))
    kind = PURE[op][0]
    n, m, k = draw(gens.dim(1, 6, 20)), draw(gens.dim(1, 6, 20)), draw(gens.dim(1, 4, 10))
    if kind == 'sq':
        a = draw(gens.recipe(n, n, kinds=('gauss', 'pos', 'int')))
        return dict(op=op, a=a, b=a, who=draw(st.booleans()))
    alias = kind != 'nm' and draw(gens.seldom(6))
    if alias:
        n, m = alias_shape(kind, n, m)
    shape = (n, m) if kind == 'nm' else second_shape(kind, n, m, k)
    a = draw(gens.anymat(n, m))
    if alias:
        return dict(op=op, a=a, b=a, alias=True, who=draw(st.booleans()))
    return dict(op=op, a=a, b=draw(gens.anymat(*shape)), who=draw(st.booleans()))


@sub('C02', 'pure', pure_cases, quick=8000)
def c02_pure(case, ctx):
    """Functional operations leave their operands bit-for-bit unchanged and return storage of their own."""
    kind, call = PURE[case['op']]
    a, b = operands(case, True)
    if kind == 'sq':
        a = a + a.T + 7.0 * max(1.0, mx(a)) * np.diag(np.arange(1.0, a.shape[0] + 1))   # symmetric, regular
        b = a
    A = M(a)
    B = A if case.get('alias') else M(b)
    ctx.label(case['op'])
    res = call(A, B)
    same(A.data, a, '%s changed its first operand' % case['op'])
    same(B.data, b, '%s changed its second operand' % case['op'])
    require(isinstance(res, Matrix), '%s returns %r', case['op'], type(res))
    snap = np.array(res.data, copy=True)
    if case['who']:   # overwrite the result; the operands must not notice
        for i in range(res.num_rows()):
            for j in range(res.num_columns()):
                res.set(i, j, 12345.0)
        same(A.data, a, 'writing to the result of %s changed its first operand' % case['op'])
        same(B.data, b, 'writing to the result of %s changed its second operand' % case['op'])
    else:             # overwrite the operands; the result must not notice
        for X in (A, B):
            for i in range(X.num_rows()):
                for j in range(X.num_columns()):
                    X.set(i, j, 54321.0)
        same(res.data, snap, 'writing to an operand of %s changed its result' % case['op'])


@sub('C02', 'in-place', lambda: binary_cases(MODOPS), quick=600)
def c02_inplace(case, ctx):
    """In-place operations change only the matrix they are called on."""
    kind, call, ref = MODOPS[case['op']]
    a, b = operands(case, True)
    A, B = M(a), M(b)
    C, D = A.copy(), A.get_rows((0, A.num_rows()))
    T, R, K = A.transpose(), A.get_row(0), A.get_column(0)
    call(A, B)
    ctx.label(case['op'])
    same(B.data, b, '%s changed the vector' % case['op'])
    same(C.data, a, '%s changed an earlier copy' % case['op'])
    same(D.data, a, '%s changed an earlier sub-matrix' % case['op'])
    same(T.data, a.T, '%s changed an earlier transpose' % case['op'])
    same(R.data, a[:1], '%s changed an earlier row' % case['op'])
    same(K.data, a[:, :1], '%s changed an earlier column' % case['op'])


# --------------------------------------------------------------------------- C06 factories
@st.composite
def factory_cases(draw):
    return dict(r=draw(gens.dim(1, 9, 40, gens.HUGE)), c=draw(gens.dim(1, 9, 40, gens.HUGE)), v=draw(gens.values()), start=draw(st.integers(-20, 20)),
                seed=draw(st.one_of(st.integers(0, 1000), st.integers(0, 2 ** 32 - 1))), bit=draw(st.integers(0, 31)),
                a=draw(gens.anymat((1, 6), (1, 6))),
                mean=draw(st.integers(-5, 5)), std=draw(st.sampled_from([0.5, 1.0, 2.0])))


@sub('C06', 'constructors', factory_cases, quick=2800)
def c06(case, ctx):
    """Every constructor yields a real matrix of the requested shape with the documented elements."""
    r, c, v, s = case['r'], case['c'], case['v'], case['start']
    a = gens.expand(case['a'])
    A = M(a)

    def chk(m, want, what):
        d = arr(m, what)
        require(d.dtype == np.float64, '%s: elements are %s', what, d.dtype)
        require(m.num_rows() == d.shape[0] and m.num_columns() == d.shape[1], 'dimensions')
        same(d, np.asarray(want, dtype=float), what)

    chk(factory.zeros(r, c), [[0.0] * c for _ in range(r)], 'zeros')
    chk(factory.zeros(r), [[0.0] * r for _ in range(r)], 'zeros (square)')
    chk(factory.eye(r, c), [[float(i == j) for j in range(c)] for i in range(r)], 'eye')
    chk(factory.eye(r), [[float(i == j) for j in range(r)] for i in range(r)], 'eye (square)')
    chk(factory.filled(r, c, v), [[v] * c for _ in range(r)], 'filled')
    chk(factory.range(r, c, s), [[float(s + i * c + j) for j in range(c)] for i in range(r)], 'range')
    chk(factory.zeros_like(A), np.zeros(a.shape), 'zeros_like')
    chk(factory.eye_like(A), [[float(i == j) for j in range(a.shape[1])] for i in range(a.shape[0])], 'eye_like')
    chk(factory.filled_like(A, v), np.full(a.shape, v), 'filled_like')
    chk(factory.create(a.tolist()), a, 'create (lists)')
    chk(factory.create(a.copy()), a, 'create (array)')
    chk(factory.from_raw(a.tolist()), a, 'from_raw')
    chk(factory.create([[int(round(x)) for x in row] for row in np.clip(a, -1e6, 1e6)]), np.round(np.clip(a, -1e6, 1e6)), 'create (ints)')
    chk(factory.from_row(a[0].tolist()), a[:1], 'from_row')
    chk(factory.from_column(a[:, 0].tolist()), a[:, :1], 'from_column')
    col = a[:, :1]
    chk(factory.diag(M(col)), [[float(col[i, 0]) if i == j else 0.0 for j in range(len(col))] for i in range(len(col))], 'diag')
    chk(factory.create_spectrum(a[:, 0].tolist(), a[:, -1].tolist()), [[x, y] for x, y in zip(a[:, 0], a[:, -1])], 'create_spectrum')
    try:
        factory.create_spectrum(a[:, 0].tolist(), a[:, 0].tolist() + [1.0])
    except ValueError:
        pass
    else:
        fail('create_spectrum accepts lists of different length')


@sub('C06', 'random', factory_cases, quick=2800)
def c06_random(case, ctx):
    """Random matrices are a function of the seed alone, in range, and vary with the seed and from element to element."""
    r, c, seed = case['r'], case['c'], case['seed']
    x = arr(factory.rand(r, c, seed), 'rand', (r, c)).copy()
    np.random.rand(case['start'] % 7 + 1)      # an unrelated use of the global generator in between
    y = arr(factory.rand(r, c, seed), 'rand', (r, c))
    same(y, x, 'rand with the same seed')
    require((x >= 0).all() and (x < 1).all(), 'rand outside [0, 1): %s', short(x))
    z = arr(factory.rand_like(M(np.zeros((r, c))), seed), 'rand_like', (r, c))
    same(z, x, 'rand_like')
    require(len(set(x.ravel().tolist())) == r * c, 'rand repeats elements: %s', short(x))
    o = arr(factory.rand(r, c, (seed + 1) % 2 ** 32), 'rand', (r, c))
    require(not np.array_equal(o, x), 'rand ignores the seed')
    other = seed ^ (1 << case['bit'])
    require(not np.array_equal(arr(factory.rand(r, c, other), 'rand', (r, c)), x), 'rand is the same for the seeds %d and %d', seed, other)
    g = arr(factory.randn(r, c, seed, float(case['mean']), case['std']), 'randn', (r, c)).copy()
    np.random.rand(3)
    same(arr(factory.randn(r, c, seed, float(case['mean']), case['std']), 'randn'), g, 'randn with the same seed')
    same(arr(factory.randn_like(M(np.zeros((r, c))), seed, float(case['mean']), case['std']), 'randn_like'), g, 'randn_like')
    require(len(set(g.ravel().tolist())) == r * c, 'randn repeats elements: %s', short(g))
    require(not np.array_equal(arr(factory.randn(r, c, (seed + 1) % 2 ** 32, float(case['mean']), case['std']), 'randn'), g),
            'randn ignores the seed')
    require(not np.array_equal(arr(factory.randn(r, c, other, float(case['mean']), case['std']), 'randn', (r, c)), g),
            'randn is the same for the seeds %d and %d', seed, other)


BUILDERS = {
    'zeros': lambda c, A: factory.zeros(c['r'], c['c']), 'zeros_like': lambda c, A: factory.zeros_like(A),
    'eye': lambda c, A: factory.eye(c['r'], c['c']), 'eye_like': lambda c, A: factory.eye_like(A),
    'filled': lambda c, A: factory.filled(c['r'], c['c'], c['v']), 'filled_like': lambda c, A: factory.filled_like(A, c['v']),
    'range': lambda c, A: factory.range(c['r'], c['c'], c['start']), 'rand': lambda c, A: factory.rand(c['r'], c['c'], c['seed']),
    'randn': lambda c, A: factory.randn(c['r'], c['c'], c['seed']), 'rand_like': lambda c, A: factory.rand_like(A, c['seed']),
    'randn_like': lambda c, A: factory.randn_like(A, c['seed']), 'create': lambda c, A: factory.create(A.data),
    'create (lists)': lambda c, A: factory.create(A.to_raw_copy_2D()), 'from_raw': lambda c, A: factory.from_raw(A.data),
    'from_row': lambda c, A: factory.from_row(A.to_raw_copy_1D()), 'from_column': lambda c, A: factory.from_column(A.to_raw_copy_1D()),
    'diag': lambda c, A: factory.diag(A.get_column(0)),
    'create_spectrum': lambda c, A: factory.create_spectrum(A.to_raw_copy_1D(), A.to_raw_copy_1D()),
}


@st.composite
def owned_cases(draw):
    c = draw(factory_cases())
    c['r'], c['c'] = draw(gens.dim(1, 5, 14)), draw(gens.dim(1, 5, 14))
    return dict(c, f=draw(st.sampled_from(sorted(BUILDERS))), i=draw(st.integers(0, 200)), j=draw(st.integers(0, 200)))


@sub('C06', 'owned', owned_cases, quick=2800)
def c06_owned(case, ctx):
    """Every constructed matrix can be edited element by element, and no other matrix made the same way notices."""
    f = BUILDERS[case['f']]
    a = gens.expand(case['a'])
    A = M(a)
    ctx.label(case['f'])
    X, Y = f(case, A), f(case, A)
    want = np.array(arr(X, case['f']), copy=True)
    same(arr(Y, case['f']), want, case['f'] + ' called twice')
    i, j = case['i'] % want.shape[0], case['j'] % want.shape[1]
    X.set(i, j, 4321.5)
    edited = want.copy()
    edited[i, j] = 4321.5
    same(X.data, edited, case['f'] + ' after an edit')
    same(Y.data, want, 'another matrix from %s after an edit of the first' % case['f'])
    same(arr(f(case, A), case['f']), want, case['f'] + ' called again after an edit')
    for k in range(X.num_rows()):
        X.set_row(k, factory.filled(1, X.num_columns(), k))
    same(X.data, np.array([[float(k)] * want.shape[1] for k in range(want.shape[0])]), case['f'] + ' after setting its rows')
    same(Y.data, want, 'another matrix from %s after an edit of the first' % case['f'])
    same(A.data, a, 'the matrix given to ' + case['f'])


NUMBER_TYPES = {'int': int, 'float': float, 'float64': np.float64, 'float32': np.float32, 'int32': np.int32, 'int64': np.int64,
                'int8': np.int8, 'bool': lambda v: bool(int(v) % 2), 'fraction': lambda v: Fraction(v), 'float16': np.float16}


@st.composite
def mixed_cases(draw):
    n, m = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    t = st.sampled_from(sorted(NUMBER_TYPES))
    el = st.tuples(t, st.one_of(st.integers(-100, 100).map(lambda i: i / 8), gens.values(), st.just(1 / 3)))
    uniform = draw(st.booleans())
    cells = draw(st.lists(st.lists(el, min_size=m, max_size=m), min_size=n, max_size=n))
    if uniform:        # one type per column
        cells = [[(cells[0][j][0], x[1]) for j, x in enumerate(row)] for row in cells]
    return dict(cells=cells)


@sub('C06', 'number-types', mixed_cases, quick=1400)
def c06_mixed(case, ctx):
    """Numbers of any kind, mixed freely, become the double of the same value."""
    def num(t, v):
        v = min(max(v, -100.0), 100.0)
        return NUMBER_TYPES[t](int(v) if 'int' in t or t == 'bool' else v)
    x = [[num(*e) for e in row] for row in case['cells']]
    want = np.array([[float(e) for e in row] for row in x])
    ctx.label(*{e[0] for row in case['cells'] for e in row})
    for m, w, what in ((factory.create(x), want, 'create'), (factory.from_raw(x), want, 'from_raw'), (factory.from_row(x[0]), want[:1], 'from_row'),
                       (factory.from_column([r[0] for r in x]), want[:, :1], 'from_column'),
                       (factory.create_spectrum([r[0] for r in x], [r[-1] for r in x]), want[:, [0, -1]], 'create_spectrum'),
                       (factory.filled(2, 3, x[0][0]), np.full((2, 3), want[0, 0]), 'filled')):
        d = arr(m, what)
        require(d.dtype == np.float64, '%s: elements are %s', what, d.dtype)
        same(d, w, '%s of %r' % (what, x))
        m.set(0, 0, 0.1)
        require(m.get(0, 0) == 0.1, '%s: an element set to 0.1 is %r', what, m.get(0, 0))
    A = factory.zeros(len(x), len(x[0]))
    for i, row in enumerate(x):
        for j, e in enumerate(row):
            A.set(i, j, e)
    same(A.data, want, 'elements set one by one')


@st.composite
def randn_cases(draw):
    return dict(seed=draw(st.integers(0, 2 ** 31)), mean=draw(st.integers(-9, 9)), std=draw(st.sampled_from([0.25, 1.0, 3.0])),
                r=draw(st.sampled_from([20, 40])))


@sub('C06', 'randn-moments', randn_cases, quick=480, thorough=2000)
def c06_randn(case, ctx):
    """randn has the requested mean and standard deviation (known finding: uniform [0, 1) whatever was requested)."""
    n = case['r'] * 40
    g = arr(factory.randn(case['r'], 40, case['seed'], float(case['mean']), case['std']), 'randn')
    # 8 sigma bounds of the sample mean/variance: never exceeded by a correct sample in practice
    mean_ok = abs(g.mean() - case['mean']) <= 8 * case['std'] / math.sqrt(n)
    std_ok = abs(g.std() / case['std'] - 1) <= 8 / math.sqrt(2 * n)
    if mean_ok and std_ok:
        return
    u = np.random.RandomState(case['seed']).rand(case['r'], 40)
    if np.array_equal(u, g):
        ctx.finding('randn-uniform')
        return
    fail('randn(mean=%r, std=%r) has mean %r and standard deviation %r', case['mean'], case['std'], g.mean(), g.std())


# --------------------------------------------------------------------------- C09 utilities
def numbers():
    return st.one_of(gens.values(), st.integers(-5, 5).map(float),
                     st.sampled_from([float('nan'), float('inf'), float('-inf'), 1e300, -0.0]))


@st.composite
def sort_cases(draw):
    kind = draw(st.sampled_from(['small', 'long', 'ints', 'pattern']))
    if kind == 'small':
        x = draw(st.lists(numbers(), max_size=12))
    elif kind == 'ints':
        x = draw(st.lists(st.integers(-4, 4), max_size=40))
    elif kind == 'long':
        x = draw(st.lists(st.integers(0, 1000).map(lambda i: i / 8), min_size=10, max_size=150))
    else:
        n, p = draw(st.integers(1, 120)), draw(st.integers(1, 9))
        x = [float((i * p) % draw(st.sampled_from([3, 7, 1000]))) for i in range(n)]
    return dict(x=x, np=draw(st.booleans()))


@sub('C09', 'sort', sort_cases, quick=6000)
def c09_sort(case, ctx):
    """sort returns a permutation of the positions that orders the list (NaN last, as the maximum value)."""
    x = [np.float64(v) for v in case['x']] if case['np'] else list(case['x'])
    before = list(x)
    idx = utils.sort(x)
    n = len(x)
    require(len(idx) == n and sorted(idx) == list(range(n)), 'not a permutation: %r', idx)
    require(all(a is b for a, b in zip(before, x)) and len(x) == len(before), 'the list was changed')
    key = [1.7976931348623157e308 if v != v else float(v) for v in case['x']]
    for i in range(n - 1):
        require(key[idx[i]] <= key[idx[i + 1]], 'not ascending: %r gives %r', case['x'], [case['x'][k] for k in idx])
    if n < 2:
        ctx.trivial('fewer than two elements')


@st.composite
def range_cases(draw):
    x = draw(st.lists(st.one_of(st.integers(-4, 4), st.integers(-50, 50)), min_size=2, max_size=30))
    n = len(x)
    l = draw(st.integers(0, min(n - 1, 4)))
    return dict(x=x, order=draw(st.permutations(range(n))), l=l, r=n - 1 - draw(st.integers(0, n - 1 - l)))


@sub('C09', 'sort-range', range_cases, quick=3000)
def c09_range(case, ctx):
    """Sorting or partitioning a range of an index orders exactly that range: the rest of the index and the values stay,
    a partition of integers leaves no larger element before its middle than after it."""
    xs, l, r = case['x'], case['l'], case['r']
    x = [np.float64(v) for v in xs]

    def rest(idx, what):
        require(idx[:l] == case['order'][:l] and idx[r + 1:] == case['order'][r + 1:], '%s: positions outside the range moved: %r', what, idx)
        require(sorted(idx[l:r + 1]) == sorted(case['order'][l:r + 1]), '%s: not a permutation of the range: %r', what, idx)
        require(x == [np.float64(v) for v in case['x']] and xs == case['x'], '%s: values changed', what)

    idx = list(case['order'])
    utils.quick_sort(x, idx, l, r)
    rest(idx, 'quick_sort')
    got = [xs[i] for i in idx[l:r + 1]]
    require(got == sorted(got), 'quick_sort: range %d to %d is %r', l, r, got)
    idx = list(case['order'])
    m = utils.partition(list(xs), idx, l, r)
    rest(idx, 'partition')
    require(l - 1 <= m <= r, 'partition: middle %r of %d to %d', m, l, r)
    if l <= m < r:
        require(max(xs[i] for i in idx[l:m + 1]) <= min(xs[i] for i in idx[m + 1:r + 1]), 'partition: %r | %r', [xs[i] for i in idx[l:m + 1]], [xs[i] for i in idx[m + 1:r + 1]])
    idx = list(case['order'])
    utils.conditional_swap(x, idx, l, r)
    want = list(case['order'])
    if xs[want[l]] > xs[want[r]]:
        want[l], want[r] = want[r], want[l]
    require(idx == want, 'conditional_swap of %d and %d: %r', l, r, idx)
    idx = list(case['order'])
    c = utils.sort_left_right_and_center(x, idx, l, r)
    require(c == (l + r) // 2 and xs[idx[l]] <= xs[idx[c]] <= xs[idx[r]], 'sort_left_right_and_center: %r, center %r', idx, c)
    require(utils.initial_index(len(x)) == list(range(len(x))), 'initial_index')
    if l == r:
        ctx.trivial('single position')


@st.composite
def maxi_cases(draw):
    return dict(x=draw(st.lists(st.one_of(st.integers(-5, 5).map(float), gens.values()), min_size=1, max_size=30)))


@sub('C09', 'max-index', maxi_cases, quick=2000)
def c09_max(case, ctx):
    """max_index returns the position of the first maximum."""
    x = case['x']
    got = utils.max_index([np.float64(v) for v in x])
    require(got == x.index(max(x)), 'max_index(%r) = %r', x, got)
    require(list(utils.to_real_array(x)) == x and all(isinstance(v, np.float64) for v in utils.to_real_array(x)), 'to_real_array')


@st.composite
def reg_cases(draw):
    n = draw(gens.dim(2, 12, 36, gens.HUGE))
    if n > 12:
        x = np.round(gens.expand(draw(gens.recipe(n, 2, ('gauss',), None))) * 20) / 4
        return dict(x=x[:, 0].tolist(), y=x[:, 1].tolist())
    v = st.integers(-64, 64).map(lambda i: i / 4)
    return dict(x=draw(st.lists(v, min_size=n, max_size=n)), y=draw(st.lists(v, min_size=n, max_size=n)))


@sub('C09', 'regression', reg_cases, quick=2000)
def c09_reg(case, ctx):
    """linear_regression yields the exact least-squares intercept and slope; sum_of_squares the sum of squares."""
    x, y = [Fraction(v) for v in case['x']], [Fraction(v) for v in case['y']]
    n = len(x)
    ss = utils.sum_of_squares([np.float64(v) for v in case['x']])
    require(float(ss) == float(sum(v * v for v in x)), 'sum_of_squares(%r) = %r', case['x'], ss)
    det = n * sum(v * v for v in x) - sum(x) ** 2
    if det == 0:
        return ctx.trivial('all x equal')
    slope = (n * sum(p * q for p, q in zip(x, y)) - sum(x) * sum(y)) / det
    icpt = (sum(y) - slope * sum(x)) / n
    a, b = utils.linear_regression([np.float64(v) for v in case['x']], [np.float64(v) for v in case['y']])
    s = 1 + max(abs(float(icpt)), abs(float(slope)))
    require(abs(a - float(icpt)) <= 1e-9 * s and abs(b - float(slope)) <= 1e-9 * s,
            'linear_regression(%r, %r) = (%r, %r), expected (%r, %r)', case['x'], case['y'], a, b, float(icpt), float(slope))


@st.composite
def fmt_cases(draw):
    return dict(v=draw(st.one_of(gens.values(), st.floats(-1e9, 1e9), st.sampled_from([float('nan'), float('inf'), float('-inf'), 0.0]))),
                d=draw(st.one_of(st.integers(-1, 12), st.integers(13, 30))))


@sub('C09', 'format', fmt_cases, quick=3600)
def c09_fmt(case, ctx):
    """real_to_string_fixed shows exactly the requested decimals, correctly rounded, and parses back."""
    from decimal import Decimal, ROUND_HALF_EVEN, getcontext
    v, d = case['v'], case['d']
    s = utils.real_to_string_fixed(np.float64(v), d)
    require(isinstance(s, str), 'not a string: %r', s)
    if v != v:
        require(s.lower() == 'nan', 'NaN is shown as %r', s)
        return
    if math.isinf(v):
        require(float(s) == v, '%r is shown as %r', v, s)
        return
    if d < 0:
        require(float(s) == v, '%r is shown as %r', v, s)
        return
    frac = s.split('.')[1] if '.' in s else ''
    require(len(frac) == d, '%r with %d decimals is shown as %r', v, d, s)
    getcontext().prec = 90
    err = abs(Decimal(s) - Decimal(v))
    require(err <= Decimal(1).scaleb(-d) / 2, '%r with %d decimals is shown as %r', v, d, s)


@st.composite
def equal_cases(draw):
    a = draw(gens.explicit((1, 4), (1, 4)))
    return dict(a=a, i=draw(st.integers(0, 15)), d=draw(st.sampled_from([0.0, 0.25, 0.5, 1.0, -0.5, 2.0, 2.0 ** -30, -2.0 ** -32])),
                eps=draw(st.sampled_from([0.0, 0.25, 0.5, 1.0, 2.0 ** -31])), fine=draw(st.booleans()), grow=draw(st.sampled_from([0, 0, 1, 2])))


@sub('C09', 'equality', equal_cases, quick=3200)
def c09_equal(case, ctx):
    """Comparison of matrices: exact, with tolerance, and false (never an error) for different shapes."""
    a = np.round(gens.expand(case['a']) * 4) / 4
    a = np.clip(a, -1e6, 1e6)
    i = np.unravel_index(case['i'] % a.size, a.shape)
    if case.get('fine') and abs(case['d']) < 1:     # next to zero, where differences of any size can be told apart
        a[i] = 0.0
        case = dict(case, d=case['d'] * 2.0 ** -40, eps=case['eps'] * 2.0 ** -40)
    b = a.copy()
    b[i] += case['d']
    A, B = M(a), M(b)
    if case['grow']:
        B = M(np.vstack([b, b[:1]]) if case['grow'] == 1 else np.hstack([b, b[:, :1]]))
        require((A == B) is False and (B == A) is False and (A != B) is True, 'matrices of different shapes compare equal')
        require(helper.equal(A, B) is False and not A.same_shape_as(B), 'helper.equal on different shapes')
        return
    eq = case['d'] == 0.0
    require((A == B) == eq and (A != B) == (not eq), '== is %r for a difference of %r', A == B, case['d'])
    require(helper.equal(A, B, case['eps']) == (abs(case['d']) <= case['eps']), 'equal(eps=%r) with a difference of %r', case['eps'], case['d'])
    require(helper.equal(A, B) == eq, 'helper.equal')
    require(A == A.copy() and A == A and not (A == None) and not (A == 3), 'reflexive / foreign comparison')
    require(A.same_shape_as(B) and A.is_square() == (a.shape[0] == a.shape[1]), 'shape predicates')
    require(A.shape_string() == '[%d x %d]' % a.shape and helper.dim(A) == '%d x %d' % a.shape, 'shape strings')


@st.composite
def special_equal_cases(draw):
    n, m = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    el = st.sampled_from([1.0, 0.0, -0.0, -2.5, 1e300, -1e300, 5e-324, float('inf'), float('-inf')])
    return dict(a=draw(gens.explicit(n, m, el)), i=draw(st.integers(0, 15)), eps=draw(st.sampled_from([0.0, 0.5, 1e300])),
                v=draw(st.sampled_from([float('nan'), float('inf'), float('-inf'), 1.0, -0.0, 1e300, 5e-324, None])))


@sub('C09', 'special-equality', special_equal_cases, quick=1000)
def c09_special_equal(case, ctx):
    """Infinite and huge elements are equal to themselves and to nothing else; NaN is equal to no number."""
    a = gens.expand(case['a'])
    i = np.unravel_index(case['i'] % a.size, a.shape)
    b = a.copy()
    if case['v'] is not None:
        b[i] = case['v']
    A, B = M(a), M(b)
    x, y = float(a[i]), float(b[i])
    with np.errstate(all='ignore'):
        eq = x == y
        near = eq or (math.isfinite(x) and math.isfinite(y) and abs(x - y) <= case['eps'])
        require(((A == B), (B == A), (A != B)) == (eq, eq, not eq), '== is %r for the elements %r and %r', A == B, x, y)
        require(A == A.copy(), '%s is not equal to its copy', short(a))
        require(helper.equal(A, B) == eq and helper.equal(B, A) == eq, 'helper.equal is %r for the elements %r and %r', helper.equal(A, B), x, y)
        require(helper.equal(A, B, case['eps']) == near and helper.equal(B, A, case['eps']) == near,
                'helper.equal(eps=%r) is %r for the elements %r and %r', case['eps'], helper.equal(A, B, case['eps']), x, y)
    if eq:
        ctx.label('equal')
