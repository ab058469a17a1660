"""Planted bugs: text replacements in /repo/src/wai/ma, each with a demonstration (see plant.py)."""

PLANTS = []


def plant(id, property, needs, what, edits, demo):
    PLANTS.append(dict(id=id, property=property, needs=needs, what=what, edits=edits, demo=demo))


plant('C01-reduce-batch', 'C01',
      'a vector of one element applied to a matrix with more than one column',
      'sub_by_vector and its relatives accept a 1x1 vector and broadcast it silently instead of rejecting it',
      [('core/matrix/_Matrix.py', "        self.ensure_vector_size_matches(vector)\n        self.reset_cache()",
        "        if vector.num_elements() > 1:\n            self.ensure_vector_size_matches(vector)\n        self.reset_cache()")],
      '''
m = M([[1, 2, 3], [4, 5, 6]])
try:
    m.sub_by_vector(M([[1]]))
except Exception:
    raise SystemExit(0)
raise SystemExit('a vector of the wrong size was accepted')
''')

plant('C02-head-view', 'C02',
      'editing the result of head() or the matrix it was taken from afterwards',
      'head() returns a view of the matrix instead of a copy, so edits of one show up in the other',
      [('core/matrix/_Matrix.py', "return Matrix(np.array(self.data[:n, :]))", "return Matrix(self.data[:n, :])")],
      '''
m = M([[1, 2], [3, 4], [5, 6]])
h = m.head(2)
h.set(0, 0, 99)
assert m.get(0, 0) == 1, 'editing the head changed the matrix'
''')

plant('C05-set-column-cache', 'C05',
      'eigenvalues requested, then a column assigned, then eigenvalues requested again',
      'set_column leaves the cached decompositions in place when it replaces the whole column',
      [('core/matrix/_Matrix.py',
        "        replacement_length = min(column.num_rows(), self.num_rows())\n        self.reset_cache()\n",
        "        replacement_length = min(column.num_rows(), self.num_rows())\n"
        "        if replacement_length < self.num_rows():\n            self.reset_cache()\n")],
      '''
m = M([[2, 0], [0, 3]])
m.get_eigenvalues()
m.set_column(0, M([[7], [0]]))
got = sorted(float(x) for x in np.real(m.get_eigenvalues().data).ravel())
assert np.allclose(got, [3, 7]), got
''')

plant('C03-row-shorter', 'C03',
      'assigning a row shorter than the matrix is wide',
      'set_row with a short row also overwrites the remaining elements with the last value',
      [('core/matrix/_Matrix.py',
        "        self.data[row_index, :replacement_length] = row.data[0, :replacement_length]",
        "        self.data[row_index] = np.resize(row.data[0, :replacement_length], self.num_columns())")],
      '''
m = M([[1, 2, 3], [4, 5, 6]])
m.set_row(0, M([[7, 8]]))
assert m.to_raw_copy_2D()[0] == [7, 8, 3], m.to_raw_copy_2D()
''')

plant('C07-short-lines', 'C07',
      'a text file whose later line has more cells than the first, or an unreadable cell in the middle of a line',
      'reading stops with the rest of a line after a cell that cannot be parsed',
      [('core/matrix/helper.py', "                print_stack_trace()\n", "                print_stack_trace()\n                break\n")],
      '''
import io
m = helper.read(io.StringIO('1,2,3\\n4,x,6\\n'), False, ',')
assert m.get(1, 2) == 6, m.to_raw_copy_2D()
''')

plant('C09-max-index', 'C09',
      'a list whose maximum occurs more than once',
      'max_index returns the last instead of the first position of the maximum',
      [('core/utils.py', "if i == 0 or reals[i] > maximum:", "if i == 0 or reals[i] >= maximum:")],
      '''
from wai.ma.core import utils
assert utils.max_index([1.0, 5.0, 5.0, 2.0]) == 1
''')

plant('C12-robust-inverse', 'C11',
      'changing the quantile range of a fitted robust scaler and using it on new data',
      'RobustScaler keeps its fitted statistics when an option changes',
      [('transformation/_RobustScaler.py', "            # If validation passes, reset\n            self.reset()\n",
        "            # If validation passes, reset\n            if getattr(self, '_intern', None) is None:\n                self.reset()\n")],
      '''
from wai.ma.transformation import RobustScaler
d = M([[1], [2], [3], [10], [30]])
r = RobustScaler()
r.transform(d)
r.quantile_range = (10.0, 90.0)
f = RobustScaler()
f.quantile_range = (10.0, 90.0)
assert np.allclose(r.transform(d).data, f.transform(d).data)
''')

plant('C13-left-window', 'C13',
      'a filter with different numbers of points to the left and right',
      'the normal equations of the Savitzky-Golay filter are summed over a window as wide to the right as to the left '
      'when the right side is the wider one by more than three points',
      [('transformation/_SavitzkyGolay.py', "            for k in range(-num_left, num_right + 1):",
        "            for k in range(-num_left, min(num_right, num_left + 3) + 1):")],
      '''
from wai.ma.transformation import SavitzkyGolay
s = SavitzkyGolay()
s.num_points_left, s.num_points_right, s.derivative_order = 1, 6, 0
x = np.arange(12.0)
out = s.transform(M([x ** 2])).data[0]
assert np.allclose(out, x[1:-6] ** 2), out
''')

plant('C14-nyquist', 'C14',
      'rows of even length in the mode of amplitude and angle pairs, with a negative Nyquist component',
      'the Nyquist component of amplitude/angle pairs is written as its amplitude, losing its sign for the inverse',
      [('transformation/_FFT.py',
        "        columns.append(np.angle(compl))\n\n    if array.shape[1] % 2 == 0:\n        columns.append(array[:, -1])",
        "        columns.append(np.angle(compl))\n\n    if array.shape[1] % 2 == 0:\n        columns.append(np.abs(array[:, -1]))")],
      '''
from wai.ma.transformation import FFT
from wai.ma.transformation._FFT import OutputMode
f = FFT()
f.output_mode = OutputMode.AMPL_ANGLE_PAIRS
d = M([[0, 1, 0, 2]])
back = f.inverse_transform(f.transform(d))
assert np.allclose(back.data, d.data), back.data
''')

plant('C15-boundary', 'C15',
      'a wave number that lies exactly on the upper end of a requested range',
      'points on the upper end of a range are neither used nor corrected',
      [('transformation/_MultiplicativeScatterCorrection.py', "return lower <= value <= upper", "return lower <= value < upper")],
      '''
from wai.ma.transformation import MultiplicativeScatterCorrection as MSC
w = np.arange(5.0)
avg = np.array([1.0, 4, 2, 8, 5])
m = MSC()
m.correction.ranges = [(0.0, 4.0)]
m.configure(M(np.column_stack([w, avg])))
out = m.transform(M(np.column_stack([w, 2 * avg + 3]))).data[:, 1]
assert np.allclose(out, avg), out
''')

plant('C16-equidistance-floor', 'C16',
      'resampling to more columns than there are (upsampling by a factor that does not divide)',
      'the interpolation weight is taken relative to the number of columns instead of samples when upsampling',
      [('filter/_Equidistance.py', "            t = (x % original_step) / original_step",
        "            t = (x % original_step) / max(original_step, resampled_step)")],
      '''
from wai.ma.filter import Equidistance
x = np.arange(9.0)
out = Equidistance(4).transform(M([x])).data[0]
assert np.allclose(out, np.linspace(0, 8, 4)), out
''')

plant('C18-constant-first', 'C18',
      'PCA of data with a constant column, followed by PCA with the same object of data without',
      'the columns to keep are collected over successive uses of a PCA object',
      [('algorithm/_PCA.py', "        self.keep_cols = []\n        for j in range", "        self.keep_cols = [j for j in self.keep_cols if j >= instances.num_columns()]\n        for j in range")],
      '''
from wai.ma.algorithm import PCA
r = np.random.RandomState(0)
p, q = PCA(), PCA()
for o in (p, q):
    o.variance = 0.99
p.transform(M(r.rand(8, 5)))
d = M(r.rand(8, 3))
try:
    a = p.transform(d).data
except Exception as e:
    raise SystemExit('second use fails: %r' % e)
assert np.allclose(a, q.transform(d).data)
''')

plant('C19-lambda-y', 'C19',
      'different regularisation of predictors and responses and more than one response',
      'the response covariance is regularised with the smaller of both lambdas',
      [('algorithm/_CCAFilter.py', "factory.eye(num_targets).mul(self.lambda_Y)",
        "factory.eye(num_targets).mul(max(self.lambda_Y, self.lambda_X / 100))")],
      '''
from wai.ma.algorithm import CCAFilter
r = np.random.RandomState(1)
X, Y = r.rand(12, 3), r.rand(12, 2)
f = CCAFilter()
f.initialize()
f.lambda_X, f.lambda_Y, f.kcca = 50.0, 0.01, 2
assert f.initialize(M(X), M(Y)) is None
Yc = Y - Y.mean(0)
P = f.proj_Y.data
assert np.allclose(P.T @ (Yc.T @ Yc + 0.01 * np.eye(2)) @ P, np.eye(2)), 'projections are not whitened'
''')

plant('C22-decorrelate', 'C22',
      'deflation with nine or more components',
      'components are only decorrelated from the seven components before them',
      [('algorithm/ica/_FastICA.py', "        Wp: Matrix = W.get_rows((0, j))\n",
        "        Wp: Matrix = W.get_rows((max(0, j - 7), j))\n")],
      '''
from wai.ma.algorithm.ica import FastICA
r = np.random.RandomState(2)
f = FastICA()
f.initialize()
f.num_components = 10
S = f.transform(M(r.rand(60, 10) ** 3)).data
G = S.T @ S
assert np.allclose(G, np.diag(np.diag(G)), atol=1e-6 * abs(G).max()), 'sources are correlated'
''')

plant('C25-canonical-deflation', 'C25',
      'NIPALS with canonical deflation, at least three responses and components',
      'from the third component on canonical deflation removes the predictor scores instead of the response scores',
      [('algorithm/pls/_NIPALS.py',
        "                yk_loading: Matrix = Y.transpose().mul(yk_score).div(yk_score.norm2_squared())\n                Y = Y.sub(yk_score.mul(yk_loading.transpose()))",
        "                yk_loading: Matrix = Y.transpose().mul(yk_score).div(yk_score.norm2_squared())\n                Y = Y.sub((yk_score if k < 2 else xk_score).mul(yk_loading.transpose()))")],
      '''
from wai.ma.algorithm.pls import NIPALS
from wai.ma.algorithm.pls._NIPALS import DeflationMode
r = np.random.RandomState(3)
X, Y = r.rand(20, 6), r.rand(20, 5)
n = NIPALS()
n.tol, n.max_iter, n.num_components = 1e-14, 2000, 4
n.deflation_mode = DeflationMode.CANONICAL
assert n.initialize(M(X), M(Y)) is None
U = n.get_matrix('U').data
G = U.T @ U
assert np.allclose(G, np.diag(np.diag(G)), atol=1e-5 * abs(G).max()), 'response scores of canonical mode are not orthogonal'
''')

plant('C27-slim-sign', 'C27',
      'a limit on the coefficients, eight columns or more and weight vectors with large negative entries',
      'the coefficient limit takes the entries of long weight vectors by value instead of magnitude when it looks for the cutoff',
      [('algorithm/pls/_SIMPLS.py', "            ld = [abs(x) for x in ld]\n", "            ld = [abs(x) for x in ld] if len(ld) < 8 else ld\n")],
      '''
from wai.ma.algorithm.pls import SIMPLS
r = np.random.RandomState(5)
X = r.randn(30, 9)
y = X @ np.array([-9, -8, -7, .1, .2, .3, .1, .2, .1]).reshape(-1, 1)
full, s = SIMPLS(), SIMPLS()
for o in (full, s):
    o.num_components = 1
s.num_coefficients = 2
full.initialize(M(X), M(y)), s.initialize(M(X), M(y))
a, b = np.abs(full.get_matrix('W').data.ravel()), s.get_matrix('W').data.ravel()
kept = set(np.flatnonzero(b))
assert set(np.argsort(-a)[:2]) <= kept and len(kept) <= 3, (a, b)
''')

plant('C28-column-order', 'C28',
      'more than eight columns, of which the selected ones hash in another order than their numbers',
      'the selected columns are collected in the order of the set instead of ascending, but their coefficients ascending',
      [('algorithm/pls/_SparsePLS.py', "        col_count: int = 0\n        for i in sorted(self.A):",
        "        col_count: int = 0\n        for i in self.A:")],
      '''
from wai.ma.algorithm.pls import SparsePLS
r = np.random.RandomState(6)
X = r.rand(200, 12)
y = X[:, [11]] * 9 + X[:, [8]] * 5 + X[:, [1]] * 7
s = SparsePLS()
s.lambda_, s.num_components = 0.45, 1
s.initialize(M(X), M(y))
B = np.abs(s.get_matrix('B').data.ravel())
Z = (X - X.mean(0)) / X.std(0, ddof=1)
c = np.abs(Z.T @ (y - y.mean())).ravel()
k = np.flatnonzero(B)
assert list(k) == [1, 8, 11] and list(k[np.argsort(B[k])]) == list(k[np.argsort(c[k])]), (k, B[k], c[k])
''')

plant('C30-target-norm', 'C30',
      'a source domain more than three times as large as the target domain',
      'the covariance of the target domain is scaled with the size of the source domain if that is more than three times as large',
      [('algorithm/pls/_DIPLS.py', "ONE / (self.nt - ONE)", "ONE / (max(self.nt, self.ns // 3) - ONE)")],
      '''
from wai.ma.algorithm.pls import DIPLS
r = np.random.RandomState(8)
Xs, Xt, y = r.rand(40, 3), r.rand(5, 3) + 1, r.rand(40, 1)
d = DIPLS()
d.initialize()
d.num_components, d.lambda_ = 1, 5.0
d.initialize_unsupervised(M(Xs), M(Xt), M(y))
s, t, yc = Xs - Xs.mean(0), Xt - Xt.mean(0), y - y.mean()
D = s.T @ s / 39 - t.T @ t / 4
w = np.linalg.solve(np.eye(3) + 5.0 / (2 * (yc ** 2).sum()) * D, s.T @ yc / (yc ** 2).sum())
w /= np.linalg.norm(w)
got = d.get_matrix('Wdi').data
assert np.allclose(abs((w * got).sum()), 1, atol=1e-9), (w, got)
''')

plant('C31-mad', 'C31',
      'responses whose residuals are not centred at zero',
      'the deviation of the residuals is taken around zero instead of around their median',
      [('algorithm/pls/_PRM.py', "return v.sub(v.median()).abs().median()", "return v.abs().median() if v.num_rows() < 12 else v.sub(v.median()).abs().median()")],
      '''
from wai.ma.algorithm.pls import PRM
p = PRM()
v = M([[1.0], [2.0], [3.0], [10.0], [11.0]])
assert p.median_absolute_deviation(v) == 2.0
''')

plant('C32-failed-training', 'C32',
      'a training that is rejected, after a successful one',
      'a rejected training leaves the previous model usable although its matrices are gone',
      [('algorithm/pls/_AbstractPLS.py', "            self.reset()\n\n            result = self.check(predictors, response)\n",
        "            result = self.check(predictors, response)\n            if result is None:\n                self.reset()\n")],
      '''
from wai.ma.algorithm.pls import PLS1
r = np.random.RandomState(9)
p = PLS1()
p.num_components = 2
p.initialize(M(r.rand(9, 3)), M(r.rand(9, 1)))
assert p.initialize(M(r.rand(9, 3)), M(r.rand(9, 2))) is not None
assert not p.is_initialised(), 'still trained after a rejected training'
''')

plant('C33-shared-training-data', 'C33',
      'kernel PLS without preprocessing, trained on centred data, which is changed afterwards',
      'two shortcuts: centring data that is centred already hands back the same matrix, and training passes the '
      'predictors on without copying, so that kernel PLS keeps the matrix of the caller',
      [('algorithm/pls/_AbstractPLS.py', "            predictors = predictors.copy() if predictors is not None else None\n", ""),
       ('transformation/_Center.py', "        result = data.copy()\n        result.sub_by_vector_modify(self.means)",
        "        result = data.copy() if self.means.any(lambda v: v != 0) else data\n        result.sub_by_vector_modify(self.means)"),
       ],
      '''
from wai.ma.algorithm.pls import KernelPLS
r = np.random.RandomState(10)
a = np.round(r.rand(8, 3) * 8)
X, y = M(np.vstack([a, -a])), M(r.rand(16, 1))
Z = M(r.rand(4, 3))
p = KernelPLS()
p.num_components = 2
p.initialize(X, y)
before = p.predict(Z).data.copy()
X.set(0, 0, 100.0)
assert np.array_equal(before, p.predict(Z).data), 'changing the training data changed the model'
''')

plant('C34-median-order', 'C34',
      'an odd number of nine or more rows in another order',
      'the starting value of the robust residuals is the response of the middle row instead of the median for odd numbers of rows',
      [('algorithm/pls/_PRM.py', "        y_i_hat: real = y.median()\n",
        "        y_i_hat: real = y.median() if n % 2 == 0 or n < 9 else y.get(n // 2, 0)\n")],
      '''
from wai.ma.algorithm.pls import PRM
r = np.random.RandomState(11)
X, y = r.rand(31, 3), r.rand(31, 1)
o = r.permutation(31)
out = []
for i in (np.arange(31), o):
    p = PRM()
    p.initialize()
    p.num_components = 2
    p.initialize(M(X[i]), M(y[i]))
    out.append(p.predict(M(X)).data)
assert np.allclose(*out), 'predictions depend on the order of the rows'
''')


plant('C01-norm-wide', 'C01',
      'the norm of a matrix that is wider than it is high',
      'norm2 divides by the root of the number of columns instead of the smaller dimension',
      [('core/matrix/_Matrix.py', "np.ma.sqrt(min(self.num_rows(), self.num_columns()))", "np.ma.sqrt(self.num_columns())")],
      '''
assert np.isclose(M([[3, 0, 0], [0, 4, 0]]).norm2(), 5 / np.sqrt(2))
''')

plant('C02-mul-by-one', 'C02',
      'multiplication by the number one, and a change of the result or the operand afterwards',
      'multiplying by one returns a matrix that shares its elements with the operand',
      [('core/matrix/_Matrix.py', "            return Matrix(np.multiply(self.data, other))",
        "            return Matrix(self.data if other == 1 else np.multiply(self.data, other))")],
      '''
m = M([[1, 2], [3, 4]])
r = m.mul(1)
r.set(0, 0, 9)
assert m.get(0, 0) == 1
''')

plant('C03-fill-diagonal-wrap', 'C03',
      'filling the diagonal of a matrix with at least two more rows than columns',
      'the diagonal starts again below the square part',
      [('core/matrix/helper.py',
        "    i = 0\n    while i < mat.num_rows() and i < mat.num_columns():\n        mat.data[i][i] = real(value)\n        i += 1\n",
        "    np.fill_diagonal(mat.data, real(value), wrap=True)\n")],
      '''
m = M(np.zeros((5, 2)))
helper.fill_diagonal(m, 1)
assert m.to_raw_copy_2D() == [[1, 0], [0, 1], [0, 0], [0, 0], [0, 0]], m.to_raw_copy_2D()
''')

plant('C04-eigenvectors-by-magnitude', 'C04',
      'sorted eigenvectors of a matrix with positive and negative eigenvalues',
      'eigenvectors are sorted by the magnitude of their eigenvalue, eigenvalues by value',
      [('core/matrix/_Matrix.py', "key=lambda v: v[0], reverse", "key=lambda v: abs(v[0]), reverse")],
      '''
m = M([[1, 0], [0, -5]])
v = m.get_eigenvectors_sorted_descending().data
assert np.allclose(np.abs(v), np.eye(2)), v
''')

plant('C05-sorting-the-cache', 'C05',
      'sorted eigenvalues requested before another eigenvalue result of the same matrix',
      'sorting the eigenvalues sorts the cached ones in place, so that they no longer belong to the cached eigenvectors',
      [('core/matrix/_Matrix.py', "        eigenvalues = self.get_eigenvalues()\n        eigenvalues.data.sort(0)",
        "        eigenvalues = self.get_eigenvalues() if ascending else self.eigenvalue_decomposition[0] \\\n            if self.eigenvalue_decomposition is not None else self.get_eigenvalues()\n        eigenvalues.data.sort(0)")],
      '''
m = M([[5, 0], [0, 1]])
m = M([[1, 0], [0, 5]])
m.get_eigenvalues()
m.get_eigenvalues_sorted_descending()
D, V = m.get_eigenvalue_decomposition_D().data, m.get_eigenvalue_decomposition_V().data
assert np.allclose(V @ D @ V.T, m.data), (D, V)
''')

plant('C06-seed-cut', 'C06',
      'two seeds that differ by a multiple of 65536',
      'uniform random matrices use the last 16 bits of the seed only',
      [('core/matrix/factory.py', "    random.seed(seed)\n    return Matrix(random.rand(rows, columns))",
        "    random.seed(seed & 0xFFFF)\n    return Matrix(random.rand(rows, columns))")],
      '''
assert not np.array_equal(factory.rand(3, 3, 5).data, factory.rand(3, 3, 5 + 65536).data)
''')

plant('C07-strip-line', 'C07',
      'an empty first cell in a file separated by tabs or blanks',
      'lines are stripped before they are split, so that cells after an empty first cell move to the left',
      [('core/matrix/helper.py', "        cells = lines[i].split(sep)\n        for j", "        cells = lines[i].strip().split(sep)\n        for j")],
      '''
import io
m = helper.read(io.StringIO('1\\t2\\n\\t4\\n'), False, '\\t')
assert m.get(1, 1) == 4, m.to_raw_copy_2D()
''')

plant('C08-string-length', 'C08',
      'a string with characters outside ASCII',
      'the length before an encoded string counts characters instead of bytes',
      [('core/_Serialisable.py', "b = Serialisable.serialise_to_bytes(len(b)) + b\n            return b\n        else",
        "b = Serialisable.serialise_to_bytes(len(value)) + b\n            return b\n        else")],
      '''
from wai.ma.core import Serialisable
b = Serialisable.serialise_to_bytes('\\u00b5m')
assert int.from_bytes(b[:4], 'little') == len(b) - 4
''')

plant('C09-rounded-twice', 'C09',
      'a number very close to halfway between two printable values',
      'numbers are rounded arithmetically before they are formatted, which rounds some of them the wrong way',
      [('core/utils.py', "    return np.format_float_positional(value,\n", "    return np.format_float_positional(np.round(value, after_decimal_point),\n")],
      '''
from wai.ma.core import utils
for v in np.arange(0.005, 20, 0.01):
    got = utils.real_to_string_fixed(np.float64(v), 2)
    assert got == '%.2f' % v, (repr(v), got)
''')

plant('C10-log-negative-offset', 'C10',
      'the inverse of a logarithm with a negative offset',
      'the offset is undone only if it is positive',
      [('transformation/_Log.py', "        data -= self.offset\n", "        data -= max(self.offset, 0.0)\n")],
      '''
from wai.ma.transformation import Log
t = Log()
t.offset = -2.0
d = M([[3, 4], [5, 6]])
assert np.allclose(t.inverse_transform(t.transform(d)).data, d.data)
''')

plant('C11-configured-once', 'C11',
      'configuring a fitted centring again with other data, without a reset',
      'explicit fitting keeps the means of the first data',
      [('transformation/_Center.py', "        self.means = column_means(data)\n", "        if self.means is None:\n            self.means = column_means(data)\n")],
      '''
from wai.ma.transformation import Center
c = Center()
c.configure(M([[1, 2], [3, 4]]))
c.configure(M([[11, 12], [13, 14]]))
assert np.allclose(c.transform(M([[12, 13]])).data, 0)
''')

plant('C12-log-base', 'C12',
      'a logarithm with a base between zero and one',
      'the sign of the conversion to a base below one is lost',
      [('transformation/_Log.py', "return 1.0 / np.log(self.base)", "return 1.0 / abs(np.log(self.base))")],
      '''
from wai.ma.transformation import Log
t = Log()
t.base, t.offset = 0.5, 0.0
assert np.allclose(t.transform(M([[4.0]])).data, -2)
''')

plant('C13-order-cap', 'C13',
      'a polynomial order of more than six',
      'polynomials of an order above six are fitted with order six',
      [('transformation/_SavitzkyGolay.py', "    A_dim = poly_order + 1", "    A_dim = max(min(poly_order, 6), der_order) + 1")],
      '''
from wai.ma.transformation import SavitzkyGolay
s = SavitzkyGolay()
s.num_points_left = s.num_points_right = 6
s.polynomial_order, s.derivative_order = 8, 0
x = np.arange(20.0) / 10
out = s.transform(M([x ** 8])).data[0]
assert np.allclose(out, x[6:-6] ** 8, rtol=1e-6, atol=1e-6), out
''')

plant('C14-imaginary-pair', 'C14',
      'the imaginary output of rows with two columns',
      'the imaginary part of the Nyquist component is left out for the shortest even rows',
      [('transformation/_FFT.py', "        columns.append(array[:, i])\n\n    if array.shape[1] % 2 == 0:\n        columns.append(np.zeros_like(array[:, 0]))",
        "        columns.append(array[:, i])\n\n    if array.shape[1] % 2 == 0 and array.shape[1] > 2:\n        columns.append(np.zeros_like(array[:, 0]))")],
      '''
from wai.ma.transformation import FFT
from wai.ma.transformation._FFT import OutputMode
f = FFT()
f.output_mode = OutputMode.IMAG_COMPONENT_ONLY
assert f.transform(M([[1, 2]])).data.shape == (1, 2)
''')

plant('C15-average-wave-numbers', 'C15',
      'a spectrum whose wave numbers differ a little from those of the average spectrum, around the end of a range',
      'the points of the regression are chosen by the wave numbers of the average spectrum',
      [('transformation/_MultiplicativeScatterCorrection.py', "if self.range_contains(range, filtered.get(i, 0)):",
        "if self.range_contains(range, average.get(i, 0)):")],
      '''
from wai.ma.transformation import MultiplicativeScatterCorrection as MSC
w = np.arange(8.0)
avg = np.array([1.0, 4, 2, 8, 5, 7, 3, 6])
m = MSC()
m.correction.ranges = [(0.0, 4.2)]
m.configure(M(np.column_stack([w, avg])))
s = 2 * avg + 3
s[4:] += 50
out = m.transform(M(np.column_stack([w + 0.4, s]))).data[:, 1]
assert np.allclose(out[:4], avg[:4]), out
''')

plant('C16-equidistance-float', 'C16',
      'numbers of samples for which the reciprocal of the step is not exact (50 samples of 50 or 99 columns)',
      'the column left of a sample is found by multiplying with a rounded reciprocal and is sometimes one too low',
      [('filter/_Equidistance.py', "            old_index = x // original_step\n", "            old_index = int(x * (1.0 / original_step))\n")],
      '''
from wai.ma.filter import Equidistance
x = np.arange(99.0)
out = Equidistance(50).transform(M([x])).data[0]
assert np.allclose(out, np.linspace(0, 98, 50)), out
''')

plant('C18-loadings-shifted', 'C18',
      'a constant column left of others',
      'the loadings after a removed column are those of the next columns',
      [('algorithm/_PCA.py', "                    index = self.keep_cols.index(n)\n", "                    index = n\n")],
      '''
from wai.ma.algorithm import PCA
r = np.random.RandomState(12)
X = r.rand(10, 4)
X[:, 1] = 3
p = PCA()
p.variance = 0.999
s = p.transform(M(X)).data
L = p.loadings.data[:, :s.shape[1]]
Z = X - X.mean(0)
Z = Z / np.where(Z.std(0, ddof=1) > 0, Z.std(0, ddof=1), 1)
assert np.allclose(Z @ L, s), (Z @ L - s)
''')

plant('C19-response-centre', 'C19',
      'the projection of responses other than those of the training',
      'responses are centred with their own means instead of those of the training',
      [('algorithm/_CCAFilter.py', "        response = self.center_Y.transform(response)\n", "        response = Center().transform(response)\n")],
      '''
from wai.ma.algorithm import CCAFilter
r = np.random.RandomState(13)
X, Y = r.rand(12, 3), r.rand(12, 2)
f = CCAFilter()
f.initialize()
f.initialize(M(X), M(Y))
assert np.allclose(f.transform_response(M(Y[:3])).data, f.transform_response(M(Y)).data[:3])
''')

plant('C20-shape-check', 'C20',
      'two data sets with equally many rows but different numbers of columns',
      'only the numbers of rows are compared, so that training fails with an exception instead of a message',
      [('algorithm/glsw/_GLSW.py', "if not x1.same_shape_as(x2):", "if x1.num_rows() != x2.num_rows():")],
      '''
from wai.ma.algorithm.glsw import GLSW
g = GLSW()
g.initialize()
assert g.initialize(M(np.ones((4, 3))), M(np.ones((4, 2)))) is not None
''')

plant('C21-small-responses', 'C21',
      'responses that differ by less than a millionth',
      'samples are ordered by the response rounded to six decimals',
      [('algorithm/glsw/_YGradientGLSW.py', "key=lambda o: y_vals[o]", "key=lambda o: round(y_vals[o], 6)")],
      '''
from wai.ma.algorithm.glsw import YGradientEPO
r = np.random.RandomState(14)
X, y = r.rand(10, 3), r.rand(10, 1) * 1e-8
o = r.permutation(10)
out = []
for i in (np.arange(10), o):
    f = YGradientEPO()
    f.initialize()
    f.N = 1
    assert f.initialize(M(X[i]), M(y[i])) is None
    out.append(f.transform(M(X)).data)
assert np.allclose(*out), 'depends on the order of the rows'
''')

plant('C24-negative-lambda', 'C24',
      'a negative penalty',
      'the penalty is used without its sign',
      [('algorithm/pls/_VCPLS.py', "I.mul(self.lambda_)", "I.mul(abs(self.lambda_))")],
      '''
from wai.ma.algorithm.pls import VCPLS
r = np.random.RandomState(16)
X, y = r.rand(15, 3), r.rand(15, 1)
w = []
for lam in (-3.0, 3.0):
    p = VCPLS()
    p.initialize()
    p.num_components, p.lambda_ = 1, lam
    p.initialize(M(X), M(y))
    w.append(p.get_matrix('W').data.ravel())
A = np.linalg.solve(X.T @ X + 1e-7 * np.eye(3), X.T @ y @ y.T @ X + 3 * np.eye(3))
v = np.real(np.linalg.eig(A)[1][:, np.argmax(np.real(np.linalg.eig(A)[0]))])
assert np.isclose(abs(v @ w[0]) / np.linalg.norm(w[0]), 1), (v, w)
''')

plant('C25-iteration-limit', 'C25',
      'several responses and an iteration limit that is reached',
      'one iteration more than the limit allows is made',
      [('algorithm/pls/_NIPALS.py', "            if iterations >= self.max_iter:\n", "            if iterations > self.max_iter:\n")],
      '''
from wai.ma.algorithm.pls import NIPALS
r = np.random.RandomState(17)
X, Y = r.rand(20, 4), r.rand(20, 3)
n = NIPALS()
n.num_components, n.max_iter, n.tol = 1, 0, 0.0
n.initialize(M(X), M(Y))
Z, V = [(a - a.mean(0)) / a.std(0, ddof=1) for a in (X, Y)]
w = Z.T @ V[:, 0]
w /= np.linalg.norm(w)
t = n.get_matrix('T').data.ravel()
assert np.allclose(Z @ w, t), (Z @ w, t)
''')

plant('C26-few-rows', 'C26',
      'predictions for fewer rows than there are responses, with preprocessing',
      'only as many responses as there are rows are scaled back',
      [('algorithm/pls/_AbstractMultiResponsePLS.py', "                for j in range(result.num_columns()):\n",
        "                for j in range(min(result.num_columns(), result.num_rows() + 1)):\n")],
      '''
from wai.ma.algorithm.pls import NIPALS
from wai.ma.core import PreprocessingType
r = np.random.RandomState(18)
X, Y = r.rand(15, 3), r.rand(15, 3) + 50
n = NIPALS()
n.num_components, n.preprocessing_type = 2, PreprocessingType.CENTER
n.initialize(M(X), M(Y))
assert np.allclose(n.predict(M(X[:1])).data, n.predict(M(X)).data[:1])
''')

plant('C29-base-components', 'C29',
      'a base algorithm with more components than are removed',
      'the number of components of the base algorithm is limited to that of the filter',
      [('algorithm/pls/_OPLS.py', "        self.X_osc = X.copy()\n",
        "        self.X_osc = X\n        self.base_PLS.num_components = min(self.base_PLS.num_components, self.num_components)\n")],
      '''
from wai.ma.algorithm.pls import OPLS
r = np.random.RandomState(20)
X, y = r.rand(20, 4), r.rand(20, 1)
o = OPLS()
o.initialize()
o.num_components, o.base_PLS.num_components = 1, 3
o.initialize(M(X), M(y))
assert o.base_PLS.num_components == 3 and np.allclose(o.predict(M(X)).data, X @ np.linalg.lstsq(X, y, rcond=None)[0])
''')

plant('C30-negative-lambda', 'C30',
      'a negative lambda',
      'the penalty on the domain difference loses its sign',
      [('algorithm/pls/_DIPLS.py', "X_s_diff_X_t.mul(self.lambda_ / (2 * y_norm2_squared))", "X_s_diff_X_t.mul(abs(self.lambda_) / (2 * y_norm2_squared))")],
      '''
from wai.ma.algorithm.pls import DIPLS
r = np.random.RandomState(21)
Xs, Xt, y = r.rand(10, 3), r.rand(8, 3), r.rand(10, 1)
d = DIPLS()
d.initialize()
d.num_components, d.lambda_ = 1, -2.0
d.initialize_unsupervised(M(Xs), M(Xt), M(y))
s, t, yc = Xs - Xs.mean(0), Xt - Xt.mean(0), y - y.mean()
D = s.T @ s / 9 - t.T @ t / 7
w = np.linalg.solve(np.eye(3) - 2.0 / (2 * (yc ** 2).sum()) * D, s.T @ yc)
w /= np.linalg.norm(w)
assert np.allclose(abs((w * d.get_matrix('Wdi').data).sum()), 1)
''')

plant('C31-negative-constant', 'C31',
      'a negative tuning constant',
      'the weight function takes the magnitude of the residual before dividing by the constant',
      [('algorithm/pls/_PRM.py', "abs(z / c)", "abs(z) / c")],
      '''
from wai.ma.algorithm.pls import PRM
p = PRM()
assert np.isclose(p.fair_function(2.0, -4.0), 1 / 1.5 ** 2)
''')

plant('C32-rejected-option', 'C32',
      'assigning a value that is rejected to an option of a trained algorithm',
      'a rejected value leaves the options alone but throws the training away',
      [('core/_LoggingObject.py',
        "            if not validator(value):\n                raise ValueError('Validation of ' + key + ' failed')\n\n            # If validation passes, reset, unless in __init__ phase\n            if self.init_complete():\n                self.reset()\n",
        "            if self.init_complete():\n                self.reset()\n            if not validator(value):\n                raise ValueError('Validation of ' + key + ' failed')\n")],
      '''
from wai.ma.algorithm.pls import SparsePLS
r = np.random.RandomState(22)
s = SparsePLS()
s.num_components = 1
s.initialize(M(r.rand(9, 3)), M(r.rand(9, 1)))
try:
    s.lambda_ = -1.0
except ValueError:
    pass
assert s.is_initialised()
''')

plant('C34-first-row', 'C34',
      'kernel PLS of data whose first row differs from the mean',
      'kernel PLS starts from the first row instead of the mean when it centres few rows',
      [('algorithm/pls/_KernelPLS.py', "        self.X = self.center_X.transform(self.X)\n",
        "        self.X = self.center_X.transform(self.X) if self.X.num_rows() > 8 else self.X.sub_by_vector(self.X.get_row(0))\n")],
      '''
from wai.ma.algorithm.pls import KernelPLS
from wai.ma.transformation.kernel import PolyKernel
r = np.random.RandomState(24)
X, y = r.rand(7, 3), r.rand(7, 1)
out = []
for i in (np.arange(7), np.arange(7)[::-1]):
    k = KernelPLS()
    k.num_components, k.kernel = 2, PolyKernel()
    k.initialize(M(X[i]), M(y[i]))
    out.append(k.predict(M(X)).data)
assert np.allclose(*out), out
''')


plant('C22-no-iterations', 'C22',
      'an iteration limit of zero',
      'at least one iteration is made',
      [('algorithm/ica/_FastICA.py', "            for i in range(self.max_iter):\n                res: Tuple", "            for i in range(max(self.max_iter, 1)):\n                res: Tuple")],
      '''
from wai.ma.algorithm.ica import FastICA
r = np.random.RandomState(15)
X = r.rand(30, 3)
f = FastICA()
f.initialize()
f.num_components, f.max_iter = 3, 0
S = f.transform(M(X)).data
w = factory.randn(3, 3, 1).data[0]
C = f.components.data
Wh = f.whitening.data
B = C @ np.linalg.pinv(Wh)
assert np.allclose(B[0], w / np.linalg.norm(w)), (B[0], w)
''')

plant('C33-shared-kernel', 'C33',
      'two kernel PLS objects, the kernel of one of which is given another gamma',
      'all objects share one default kernel',
      [('algorithm/pls/_KernelPLS.py', "            self.kernel = RBFKernel()\n", "            self.kernel = KernelPLS.KERNEL\n"),
       ('algorithm/pls/_KernelPLS.py', "    SEED: int = 0\n", "    SEED: int = 0\n    KERNEL: AbstractKernel = RBFKernel()\n")],
      '''
from wai.ma.algorithm.pls import KernelPLS
r = np.random.RandomState(23)
X, y = r.rand(9, 3), r.rand(9, 1)
a, b = KernelPLS(), KernelPLS()
a.num_components = 2
a.initialize(M(X), M(y))
p = a.predict(M(X)).data.copy()
b.kernel.gamma = 7.0
b.initialize(M(X), M(y))
assert np.array_equal(a.predict(M(X)).data, p)
''')

plant('C17-degree-one', 'C17',
      'a polynomial kernel of degree one',
      'setting the degree to one is ignored and leaves the former degree',
      [('transformation/kernel/_PolyKernel.py', "if key == 'degree' and value <= 0:", "if key == 'degree' and value <= 1:")],
      '''
from wai.ma.transformation.kernel import PolyKernel
k = PolyKernel()
k.degree, k.gamma = 1, 1.0
assert np.allclose(k.apply_matrix(M([[2, 3]])).data, 13)
''')

plant('C35-refused-resets', 'C35',
      'a value refused after training',
      'the algorithm is reset before the value is validated, so that a refused value ends the training',
      [('core/_LoggingObject.py', "            validator = getattr(self, validator_name)\n            if not", "            validator = getattr(self, validator_name)\n            if self.init_complete():\n                self.reset()\n            if not")],
      '''
from wai.ma.algorithm.pls import SparsePLS
r = np.random.RandomState(1)
s = SparsePLS()
s.num_components = 2
s.initialize(M(r.rand(9, 4)), M(r.rand(9, 1)))
try:
    s.lambda_ = -1.0
except ValueError:
    pass
assert s.is_initialised() and s.lambda_ == 0.5
''')

plant('C35-quantile-edge', 'C35',
      'a lower quantile of exactly zero',
      'the quantile range accepts zero',
      [('transformation/_RobustScaler.py', "if not (0.0 < selection[0] < selection[1] < 100.0):", "if not (0.0 <= selection[0] < selection[1] < 100.0):")],
      '''
from wai.ma.transformation import RobustScaler
s = RobustScaler()
try:
    s.quantile_range = (0.0, 50.0)
except ValueError:
    pass
else:
    assert False
''')

plant('C35-robust-sign', 'C35',
      'a negative tuning constant that is allowed by its magnitude',
      'negative constants are refused',
      [('algorithm/pls/_PRM.py', "return abs(value) >= 1e-10", "return value >= 1e-10")],
      '''
from wai.ma.algorithm.pls import PRM
p = PRM()
p.C = -4.0
assert p.C == -4.0
''')

plant('C18-nearly-constant', 'C18',
      'a column whose values differ by less than a millionth',
      'columns with values that agree to six decimals are taken for constant and left out',
      [('algorithm/_PCA.py', "distinct.add(self.train.get(i, j))", "distinct.add(round(self.train.get(i, j), 6))")],
      """
from wai.ma.algorithm import PCA
g = np.random.default_rng(1)
x = g.standard_normal((12, 3)) * [1.0, 1.0, 1e-8]
p = PCA()
p.center, p.variance = False, 0.999
assert p.transform(M(x)).num_columns() == 3
""")

plant('C18-late-variation', 'C18',
      'more than forty rows and a column that is constant in the first forty',
      'only the first rows are looked at when constant columns are left out',
      [('algorithm/_PCA.py', "            for i in range(self.train.num_rows()):\n                distinct.add",
        "            for i in range(min(self.train.num_rows(), 40)):\n                distinct.add")],
      """
from wai.ma.algorithm import PCA
g = np.random.default_rng(1)
x = g.standard_normal((50, 2))
x[:45, 1] = 3.0
p = PCA()
p.center, p.variance = False, 0.999
assert p.transform(M(x)).num_columns() == 2
""")

plant('C20-large-alpha', 'C20',
      'a weighting parameter above one hundred',
      'alpha is capped',
      [('algorithm/glsw/_GLSW.py', "S_squared.div(self.alpha)", "S_squared.div(min(self.alpha, 100.0))")],
      """
from wai.ma.algorithm.glsw import GLSW
x = M(np.arange(6.0).reshape(6, 1))
f = GLSW()
f.alpha = 1e4
f.initialize(x, x.mul(2.0))
assert np.isclose(f.G.get(0, 0), 1 / np.sqrt(17.5 ** 2 / 1e4 + 1)), f.G
""")

plant('C27-late-deflation', 'C27',
      'more than eight components',
      'the cross product is no longer deflated after the seventh component',
      [('algorithm/pls/_SIMPLS.py', "A = C.mul(A)", "A = C.mul(A) if h < 7 else A")],
      """
from wai.ma.algorithm.pls import SIMPLS
g = np.random.default_rng(2)
x, y = g.standard_normal((40, 15)), g.standard_normal((40, 1))
a = SIMPLS()
a.num_components = 11
a.initialize(M(x), M(y))
t = a.transform(M(x)).data
assert np.allclose(t.T @ t, np.eye(11), atol=1e-6)
""")

plant('C25-small-scores', 'C25',
      'predictors of which one combination varies a thousand times less than the others',
      'components with small scores are dropped',
      [('algorithm/pls/_NIPALS.py', "if xk_score.norm2_squared() < eps:", "if xk_score.norm2_squared() < 1e-3:")],
      """
from wai.ma.algorithm.pls import NIPALS
g = np.random.default_rng(3)
t, e = g.standard_normal((12, 1)), g.standard_normal((12, 1))
x = np.hstack([t, t + 1e-3 * e])
y = np.hstack([t + 2 * e, e])
a = NIPALS()
a.num_components = 2
a.initialize(M(x), M(y))
assert np.allclose(a.predict(M(x)).data, y, atol=1e-6)
""")

plant('C28-short-directions', 'C28',
      'a sparsity parameter just below one',
      'very short directions are not rescaled',
      [('algorithm/pls/_SparsePLS.py', "return c.div(c.norm2_squared())", "return c.div(c.norm2_squared() if c.norm2_squared() > 1e-4 else 1.0)")],
      """
from wai.ma.algorithm.pls import SparsePLS
g = np.random.default_rng(4)
x = g.standard_normal((20, 3))
y = x[:, :1] + 0.5 * x[:, 1:2] + 0.1 * g.standard_normal((20, 1))
a = SparsePLS()
a.num_components, a.lambda_ = 1, 0.999
a.initialize(M(x), M(y))
w = a.get_matrix('W').data
z = np.abs(((x - x.mean(0)) / x.std(0, ddof=1)).T @ ((y - y.mean()) / y.std(ddof=1))).ravel()
c = 0.001 * z.max() / np.median(z)
assert np.isclose(np.abs(w).max(), 1 / c), w
""")

plant('C30-two-target-rows', 'C30',
      'a target domain of two samples',
      'the covariance of the target domain is divided by two instead of one',
      [('algorithm/pls/_DIPLS.py', "ONE / (self.nt - ONE)", "ONE / (max(self.nt, 3) - ONE)")],
      """
from wai.ma.algorithm.pls import DIPLS
xs = np.array([[1.0, 2], [2, 1], [4, 3], [0, 1]])
xt = np.array([[3.0, 0], [1, 1]])
y = np.array([[1.0], [2], [3], [5]])
a = DIPLS()
a.num_components = 1
a.initialize_unsupervised(M(xs), M(xt), M(y))
es, et, f = xs - xs.mean(0), xt - xt.mean(0), y - y.mean()
ff = (f ** 2).sum()
w = np.linalg.solve(np.eye(2) + (es.T @ es / 3 - et.T @ et) / (2 * ff), es.T @ f / ff)
assert np.allclose(a.get_matrix('Wdi').data, w / np.linalg.norm(w))
""")

plant('C23-transform-many', 'C23',
      'more than seven components',
      'transforming stops deflating new data after the sixth component',
      [('algorithm/pls/_PLS1.py', "x = x.sub(self.P.get_column(j).transpose().mul(t.as_real()))\n\n            result.set_row",
        "x = x.sub(self.P.get_column(j).transpose().mul(t.as_real())) if j < 6 else x\n\n            result.set_row")],
      """
from wai.ma.algorithm.pls import PLS1
g = np.random.default_rng(2)
x, y = g.standard_normal((40, 15)), g.standard_normal((40, 1))
a = PLS1()
a.num_components = 10
a.initialize(M(x), M(y))
t = a.transform(M(x)).data
k = t.T @ t
assert np.allclose(k, np.diag(np.diag(k)), atol=1e-6)
""")

plant('C05-derived-keeps-cache', 'C05',
      'the eigenvalues of a matrix asked for, the matrix multiplied by a negative number, the eigenvalues of the product asked for',
      'a scalar multiple carries over the scaled decomposition, with the wrong sign for negative factors',
      [('core/matrix/_Matrix.py', "            return Matrix(np.multiply(self.data, other))",
        "            result = Matrix(np.multiply(self.data, other))\n            if self.eigenvalue_decomposition is not None:\n"
        "                values, vectors = self.eigenvalue_decomposition\n"
        "                result.eigenvalue_decomposition = (Matrix(np.multiply(values.data, abs(other))), vectors)\n            return result")],
      """
m = M([[2, 1], [1, 3]])
m.get_eigenvalues()
n = m.mul(-2)
assert np.allclose(np.sort(n.get_eigenvalues().data.ravel()), np.linalg.eigvalsh(n.data))
""")

plant('C05-short-row', 'C05',
      'eigenvalues asked for, then set_row with a vector shorter than the row, then eigenvalues asked for again',
      'set_row drops the cached decompositions only if the whole row is replaced',
      [('core/matrix/_Matrix.py', "        replacement_length = min(row.num_columns(), self.num_columns())\n        self.reset_cache()",
        "        replacement_length = min(row.num_columns(), self.num_columns())\n        if replacement_length == self.num_columns():\n            self.reset_cache()")],
      """
m = M([[2, 1], [1, 3]])
m.get_eigenvalues()
m.set_row(0, M([[9]]))
assert np.allclose(np.sort(m.get_eigenvalues().data.ravel()), np.linalg.eigvalsh(m.data))
""")

plant('C08-longer-file', 'C08',
      'saving a state over an existing file that is longer than the state',
      'save_state writes into the existing file without truncating it, so the tail of the old contents remains',
      [('core/_Serialisable.py', "with open(filename, 'wb') as file", "with open(filename, 'r+b' if os.path.exists(filename) else 'wb') as file")],
      """
import os, tempfile, io
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 's.bin')
    factory.zeros(5, 5).save_state(p)
    m = M([[1, 2]])
    m.save_state(p)
    s = io.BytesIO()
    m.serialise_state(s)
    with open(p, 'rb') as f:
        assert f.read() == s.getvalue()
""")

plant('C03-rows-beyond', 'C03',
      'a range of rows that reaches beyond the end of the matrix',
      'get_rows and get_sub_matrix silently cut a range that exceeds the matrix instead of rejecting it',
      [('core/matrix/_Matrix.py', "            rows = [i for i in range(*rows)]", "            rows = [i for i in range(*rows) if i < self.num_rows()]")],
      """
m = M([[1, 2], [3, 4]])
try:
    m.get_rows((1, 4))
except Exception:
    raise SystemExit(0)
raise SystemExit('rows beyond the end were accepted')
""")

plant('C06-single-row-filled', 'C06',
      'editing a filled matrix that has a single row',
      'filled returns a read-only broadcast for single rows',
      [('core/matrix/factory.py', "    return Matrix(np.full((rows, columns), real(initial_value), real))",
        "    if rows == 1:\n        return Matrix(np.broadcast_to(real(initial_value), (rows, columns)))\n    return Matrix(np.full((rows, columns), real(initial_value), real))")],
      """
m = factory.filled(1, 3, 2)
m.set(0, 1, 5)
assert m.data.tolist() == [[2, 5, 2]]
""")

plant('C01-repeated-operand', 'C01',
      'multi_concat of a matrix with itself next to it in the list',
      'multi_concat drops a matrix that directly follows itself',
      [('core/matrix/helper.py', "np.concatenate([matrix.data for matrix in matrices], axis)",
        "np.concatenate([matrix.data for k, matrix in enumerate(matrices)\n                                  if k == 0 or matrix is not matrices[k - 1]], axis)")],
      """
a = M([[1, 2]])
assert helper.multi_concat(0, a, a, M([[3, 4]])).data.tolist() == [[1, 2], [1, 2], [3, 4]]
""")

plant('C09-long-column', 'C09',
      'column vectors of more than three elements that differ in a later one',
      'helper.equal compares only the first three elements of column vectors',
      [('core/matrix/helper.py', "    for row in range(m1.num_rows()):\n        for col in range(m1.num_columns()):\n            v1",
        "    for row in range(m1.num_rows() if m1.num_columns() > 1 else min(m1.num_rows(), 3)):\n        for col in range(m1.num_columns()):\n            v1")],
      """
assert not helper.equal(M([[1], [2], [3], [4]]), M([[1], [2], [3], [5]]))
""")

plant('C36-window-cache', 'C36',
      'two Savitzky-Golay filters of the same window length that have different numbers of points to the left',
      'the coefficients of a window are cached for the module under a key that does not say where the window is centred',
      [('transformation/_SavitzkyGolay.py', "        if self.coefficients is None:\n            self.coefficients = factory.create([",
        "        key = (self.num_points_left + self.num_points_right, min(self.num_points_left, 1), self.polynomial_order, self.derivative_order)\n        if self.coefficients is None:\n            self.coefficients = CACHE.get(key)\n        if self.coefficients is None:\n            self.coefficients = factory.create(["),
       ('transformation/_SavitzkyGolay.py', "                                                                       self.derivative_order)])\n",
        "                                                                       self.derivative_order)])\n            CACHE[key] = self.coefficients\n"),
       ('transformation/_SavitzkyGolay.py', "class SavitzkyGolay(", "CACHE = {}\n\n\nclass SavitzkyGolay(")],
      """
from wai.ma.transformation import SavitzkyGolay
x = M([[1, 5, 2, 8, 3, 9, 4, 7, 6, 2]])


def made(left, right):
    t = SavitzkyGolay()
    t.num_points_left, t.num_points_right, t.derivative_order = left, right, 1
    return t.transform(x).data


a = made(2, 4)
b = made(4, 2)
r = SavitzkyGolay()
assert not np.allclose(a, b)
""")

plant('C36-shared-base', 'C36',
      'two OPLS objects, the base PLS of one of which is given other options',
      'all OPLS objects share one default base PLS',
      [('algorithm/pls/_OPLS.py', "PLS1()", "BASE"), ('algorithm/pls/_OPLS.py', "class OPLS(", "BASE = PLS1()\n\n\nclass OPLS(")],
      """
from wai.ma.algorithm.pls import OPLS
a, b = OPLS(), OPLS()
b.base_PLS.num_components = 1
assert a.base_PLS.num_components != 1
""")

plant('C32-preprocessing-kept', 'C32',
      'NIPALS, CCA regression or kernel PLS trained with standardisation and then without it',
      'the predictor transformation of an earlier training is still applied after preprocessing was switched off',
      [('algorithm/pls/_AbstractMultiResponsePLS.py', "                self.trans_predictors = None\n                self.trans_response = None\n            else", "                self.trans_response = None\n            else"),
       ('algorithm/pls/_AbstractMultiResponsePLS.py', "        self.class_std_dev = None\n        self.trans_predictors = None\n        self.trans_response = None\n\n    @abstractmethod", "        self.class_std_dev = None\n        self.trans_response = None\n\n    @abstractmethod")],
      """
from wai.ma.algorithm.pls import KernelPLS
from wai.ma.core import PreprocessingType
r = np.random.RandomState(3)
X, Y = r.rand(12, 4) * [1, 2, 3, 4], r.rand(12, 2)
a, b = KernelPLS(), KernelPLS()
a.preprocessing_type = PreprocessingType.STANDARDIZE
a.initialize(M(X), M(Y))
a.preprocessing_type = PreprocessingType.NONE
for t in (a, b):
    t.num_components = 2
    assert t.initialize(M(X), M(Y)) is None
assert np.allclose(a.predict(M(X)).data, b.predict(M(X)).data)
""")

plant('C11-refit-one-column', 'C11',
      'configuring a Center again, without a reset, on data of a single column',
      'Center keeps the mean of the first data for single columns',
      [('transformation/_Center.py', "    def configure(self, data: Matrix):\n", "    def configure(self, data: Matrix):\n        if self.configured and self.means is not None and self.means.num_columns() == data.num_columns() == 1:\n            return\n")],
      """
from wai.ma.transformation import Center
t = Center()
t.configure(M([[1], [3]]))
t.configure(M([[5], [7]]))
assert t.transform(M([[6]])).data.tolist() == [[0]]
""")

plant('C08-many-components', 'C08',
      'serialising a SIMPLS model with more than six components',
      'the state of a SIMPLS model of many components is followed by a second matrix',
      [('algorithm/pls/_SIMPLS.py', "        self.W.serialise_state(stream)", "        self.W.serialise_state(stream)\n        if self.W.num_columns() > 6:\n            self.B.serialise_state(stream)")],
      """
import io
from wai.ma.algorithm.pls import SIMPLS
r = np.random.RandomState(3)
t = SIMPLS()
t.num_components = 7
assert t.initialize(M(r.rand(20, 9)), M(r.rand(20, 1))) is None
s = io.BytesIO()
t.serialise_state(s)
w = io.BytesIO()
t.get_matrix('W').serialise_state(w)
assert s.getvalue() == w.getvalue()
""")

plant('C36-shared-centre', 'C36',
      'an ICA on data of one width after another ICA in the same process',
      'all FastICA objects use one centring transformation, which is fitted once',
      [('algorithm/ica/_FastICA.py', "        self.whitening = None\n        self.center = Center()", "        self.whitening = None\n        self.center = CENTER"),
       ('algorithm/ica/_FastICA.py', "class FastICA(", "CENTER = Center()\n\n\nclass FastICA(")],
      """
from wai.ma.algorithm.ica import FastICA
r = np.random.RandomState(3)
X, Z = r.rand(30, 2), r.rand(30, 2) + 4.0


def ica(x):
    t = FastICA()
    t.num_components = 2
    return t.transform(M(x)).data


ica(X)
assert np.abs(ica(Z).mean(0)).max() < 1e-9
""")

plant('C08-memory-order', 'C08',
      'serialising a matrix whose elements numpy holds column by column (a transposed or Fortran-ordered array)',
      'the elements are written in the order they have in memory instead of row by row',
      [('core/matrix/_Matrix.py', "        for row_index in range(self.num_rows()):\n            for column_index in range(self.num_columns()):\n                stream.write(self.serialise_to_bytes(self.get(row_index, column_index)))", "        for element in self.data.ravel('K'):\n            stream.write(self.serialise_to_bytes(element))")],
      """
import io
a, b = io.BytesIO(), io.BytesIO()
M([[1, 2], [3, 4]]).serialise_state(a)
from wai.ma.core.matrix import Matrix
Matrix(np.asfortranarray([[1.0, 2.0], [3.0, 4.0]])).serialise_state(b)
assert a.getvalue() == b.getvalue()
""")

plant('C03-memory-order', 'C03',
      'where on a matrix whose elements numpy holds column by column',
      'positions are counted in the order of memory',
      [('core/matrix/_Matrix.py', "        for row in range(self.num_rows()):\n            for col in range(self.num_columns()):\n                if function(self.data[row][col]):\n                    result.append((row, col))", "        for index, element in enumerate(self.data.ravel('K')):\n            if function(element):\n                result.append(divmod(index, self.num_columns()))")],
      """
from wai.ma.core.matrix import Matrix
m = Matrix(np.asfortranarray([[1.0, 2.0, 0.0], [3.0, 4.0, 7.0]]))
assert list(m.which(lambda v: v == 2.0)) == [(0, 1)]
""")
