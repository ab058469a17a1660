"""C10 round trips, C11 life cycle and C12 values of the transformations."""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st
from sklearn import preprocessing as skp

from wai.ma.core.matrix import factory
from wai.ma import transformation as T

from .. import gens
from ..engine import fail, oracle, require, sub
from ..ref import arr, close, mx, same, ordered

# Options of every transformation: name -> list of (option, valid values, invalid values)
OPTIONS = {
    'Center': [], 'Standardize': [], 'RowNorm': [], 'PassThrough': [],
    'RobustScaler': [('with_centering', [True, False], []), ('with_scaling', [True, False], []),
                     ('quantile_range', [(25.0, 75.0), (10.0, 90.0), (5.0, 50.0)],
                      [(0.0, 50.0), (75.0, 25.0), (50.0, 100.0), (-1.0, 50.0)])],
    'PowerTransformer': [('method', ['yeo-johnson', 'box-cox'], ['boxcox', '']), ('standardise', [True, False], [])],
    'QuantileTransformer': [('n_quantiles', [1000, 5, 3], []),
                            ('output_distribution', ['uniform', 'normal'], ['gauss', ''])],
    'Log': [('base', [2.0, 10.0, 0.5, float(np.e)], [1.0, 0.0, -2.0]), ('offset', [1.0, 0.5, 3.0, 0.0, -0.0125], [])],
    'SavitzkyGolay': [('polynomial_order', [2, 3], [1, 0, -1]), ('derivative_order', [0, 1, 2], [-1]),
                      ('num_points_left', [2, 3], [-1]), ('num_points_right', [2, 3], [-1])],
    'SavitzkyGolay2': [('polynomial_order', [2, 3], [1, 0]), ('derivative_order', [0, 1, 2], [-1]),
                       ('num_points', [2, 3], [-1])],
    'FFT': [('orthonormalisation', [True, False], []), ('output_mode', [1, 2, 3, 4, 8, 12], [])],
}
COLUMNWISE = ('Center', 'Standardize', 'RobustScaler', 'PowerTransformer', 'QuantileTransformer')
ELEMENTWISE = ('Log', 'PassThrough')
ROWWISE = ('RowNorm', 'SavitzkyGolay', 'SavitzkyGolay2', 'FFT')
POSITIVE = ('Log', 'PowerTransformer')
INVERTIBLE = COLUMNWISE + ELEMENTWISE


def M(a):
    return factory.create(ordered(a))


def make(name, opts):
    t = getattr(T, name)()
    for k, v in opts:
        setattr(t, k, tuple(v) if isinstance(v, list) else v)
    return t


@st.composite
def options(draw, name):
    out = []
    for opt, good, _ in OPTIONS[name]:
        if draw(st.booleans()):
            out.append([opt, draw(st.sampled_from(good))])
    return out


def kinds(name):
    return ('pos',) if name in POSITIVE else ('gauss', 'int', 'pos', 'corr', 'const', 'big', 'sparse', 'flat')


@st.composite
def fit_apply(draw, names, rows=(2, 12), cols=(1, 7)):
    name = draw(st.sampled_from(names))
    lo = 7 if name.startswith('Savitzky') else cols[0]
    c = draw(gens.dim(lo, max(lo, cols[1]) + (4 if lo > 1 else 0), 20, gens.HUGE))
    ks = kinds(name)
    return dict(t=name, opts=draw(options(name)),
                x=draw(gens.recipe(rows, c, ks, (-1, 1) if name in POSITIVE else (-2, 2))),
                z=draw(gens.recipe((1, 6), c, ks, None)))


@oracle
def data(case):
    return gens.expand(case['x']), gens.expand(case['z'])


@oracle
def reference(name, opts, x, z):
    """What the transformation configured on x makes of z (None: nothing is claimed)."""
    o = {k: v for k, v in opts}
    if name == 'Center':
        return z - x.mean(0)
    if name == 'Standardize':
        sd = np.array([0.0 if np.all(c == c[0]) else c.std(ddof=1) for c in x.T])
        return (z - x.mean(0)) / np.where(sd == 0, 1.0, sd)
    if name == 'RowNorm':
        sd = np.array([0.0 if np.all(r == r[0]) else r.std(ddof=1) for r in z])
        return (z - z.mean(1, keepdims=True)) / np.where(sd == 0, 1.0, sd)[:, None]
    if name == 'PassThrough':
        return z.copy()
    if name == 'Log':
        return np.log(z + o.get('offset', 1.0)) / np.log(o.get('base', np.e))
    if name == 'RobustScaler':
        lo, hi = o.get('quantile_range', (25.0, 75.0))
        med = np.median(x, axis=0) if o.get('with_centering', True) else np.zeros(x.shape[1])
        iqr = np.percentile(x, hi, axis=0) - np.percentile(x, lo, axis=0)
        if np.any((iqr != 0) & (iqr < 1e-9 * (1 + np.abs(x).max()))):
            return None
        iqr = np.where(iqr == 0, 1.0, iqr) if o.get('with_scaling', True) else np.ones(x.shape[1])
        return (z - med) / iqr
    if name == 'PowerTransformer':
        return skp.PowerTransformer(method=o.get('method', 'yeo-johnson'), standardize=o.get('standardise', True)) \
            .fit(x.copy()).transform(z.copy())
    if name == 'QuantileTransformer':
        return skp.QuantileTransformer(n_quantiles=o.get('n_quantiles', 1000),
                                       output_distribution=o.get('output_distribution', 'uniform')) \
            .fit(x.copy()).transform(z.copy())
    raise KeyError(name)


VALUES = ('Center', 'Standardize', 'RobustScaler', 'PowerTransformer', 'QuantileTransformer', 'Log', 'PassThrough',
          'RowNorm')


# ----------------------------------------------------------------------------------------- C12
@sub('C12', 'values', lambda: fit_apply(VALUES), 3200)
def values(case, ctx):
    """A transformation configured on one data set maps the same and other data to the reference values."""
    name, opts = case['t'], case['opts']
    x, z = data(case)
    if name == 'RowNorm' and x.shape[1] < 2:
        return ctx.trivial('row norm of one column')
    wx, wz = reference(name, opts, x, x), reference(name, opts, x, z)
    if wx is None or wz is None or not (np.all(np.isfinite(wx)) and np.all(np.isfinite(wz))):
        return ctx.trivial('reference not finite')
    ctx.label(name)
    t = make(name, opts)
    s = None
    tol = 1e-9
    if name in ('Center',):
        s = max(mx(x), mx(z), 1e-12)
    elif name == 'Standardize':
        sd = np.array([0.0 if np.all(c == c[0]) else c.std(ddof=1) for c in x.T])
        s = np.max(np.maximum(np.abs(x).max(0), np.abs(z).max(0)) / np.where(sd == 0, 1.0, sd))
    elif name == 'RowNorm':
        s = None
        for a in (x, z):
            sd = a.std(axis=1, ddof=1)
            r = np.abs(a).max(1)
            if np.any((sd < 1e-9 * r) & (sd > 0)):
                return ctx.trivial('row nearly constant')
            s = max(s or 0, mx(r / np.where(sd == 0, 1.0, sd)), 1)
    elif name == 'RobustScaler':
        s = mx(wx) + mx(wz) + 10 * max(mx(x), mx(z))
    gx = arr(t.transform(M(x)), '%s of the configuring data' % name, x.shape)
    close(gx, wx, '%s of the configuring data' % name, tol, s if s is not None else max(mx(wx), 1e-3))
    gz = arr(t.transform(M(z)), '%s of other data' % name, z.shape)
    close(gz, wz, '%s of other data' % name, tol, s if s is not None else max(mx(wz), 1e-3))
    if not opts:
        short = {'Center': T.center, 'RowNorm': T.row_norm, 'Standardize': T.standardize, 'Log': T.log}.get(name)
        for q in [getattr(T, name).quick_apply] + ([short] if short else []):
            close(arr(q(M(x)), 'quick_apply', x.shape), wx, '%s.quick_apply' % name, tol, s if s is not None else max(mx(wx), 1e-3))


@st.composite
def post_cases(draw):
    name = draw(st.sampled_from(['Center', 'Standardize', 'RowNorm']))
    return dict(t=name, x=draw(gens.recipe((2, 12), (2, 8), ('gauss', 'int', 'pos', 'corr', 'const', 'big'))))


@sub('C12', 'moments', lambda: post_cases(), 1000)
def moments(case, ctx):
    """Centred data has column means 0; standardised data also has unit sample deviation, constant columns become 0;
    row normalisation does the same per row."""
    x = gens.expand(case['x'])
    name = case['t']
    g = arr(make(name, []).transform(M(x)), name, x.shape)
    if name == 'RowNorm':
        x, g = x.T, g.T
    for j in range(x.shape[1]):
        c, h = x[:, j], g[:, j]
        const = np.all(c == c[0])
        sd = 0.0 if const else c.std(ddof=1)
        s = np.abs(c).max() / (sd if (sd and name != 'Center') else 1.0)
        if not const and sd < 1e-9 * np.abs(c).max():
            return ctx.trivial('nearly constant')
        require(abs(h.mean()) <= 1e-10 * max(s, 1e-12), '%s: mean of vector %d is %r', name, j, h.mean())
        if name != 'Center':
            if const:
                require(np.abs(h).max() <= 1e-10 * max(np.abs(c).max(), 1e-12), '%s: constant vector %d becomes %r', name, j, h)
            else:
                require(abs(h.std(ddof=1) - 1) <= 1e-9 * max(1, s), '%s: deviation of vector %d is %r', name, j, h.std(ddof=1))


@st.composite
def magnitude_cases(draw):
    n, c = draw(gens.dim(3, 9, 30)), draw(st.integers(1, 5))
    return dict(t=draw(st.sampled_from(['Center', 'Standardize', 'RowNorm', 'RobustScaler'])),
                x=draw(gens.recipe(n, c, ('gauss', 'pos', 'int'), None)),
                e=draw(st.lists(st.integers(-12, 9), min_size=c, max_size=c)),
                r=draw(st.lists(st.sampled_from([0, 0, 1, 1e3, -1e6, 1e9, 1e11]), min_size=c, max_size=c)))


@oracle
def exact_moments(v):
    f = [Fraction(float(a)) for a in v]
    mu = sum(f) / len(f)
    return float(mu), math.sqrt(float(sum((a - mu) ** 2 for a in f) / (len(f) - 1)))


@sub('C12', 'magnitudes', lambda: magnitude_cases(), 1200)
def magnitudes(case, ctx):
    """Columns (rows) of any magnitude, spread however little around however large a mean, are mapped to the values of
    the definition; a small deviation is not mistaken for none."""
    x = gens.expand(case['x'])
    sc = 10.0 ** np.array(case['e'], dtype=float)
    x = (x + np.array(case['r'], dtype=float)[None, :]) * sc[None, :]
    name = case['t']
    if name == 'RowNorm':
        x = x.T
    got = arr(make(name, []).transform(M(x)), name, x.shape)
    if name == 'RowNorm':
        x, got = x.T, got.T
    for j in range(x.shape[1]):
        mu, sd = exact_moments(x[:, j])
        if sd == 0:
            continue
        if name == 'RobustScaler':
            mu = float(np.median(x[:, j]))
            sd = float(np.percentile(x[:, j], 75) - np.percentile(x[:, j], 25))
            if sd < 1e-3 * np.abs(x[:, j] - mu).max() or sd < 1e-13:
                continue
        unit = 1.0 if name == 'Center' else sd
        want = np.array([float((Fraction(float(v)) - Fraction(mu)) / Fraction(unit)) for v in x[:, j]])
        slack = 1e-9 * mx(want) + 1e-14 * mx(x[:, j]) / unit * (1 + mx(want) if name != 'Center' else 1)
        if sd < 1e-13 * mx(x[:, j]):
            continue
        require(float(np.abs(got[:, j] - want).max()) <= slack, '%s of a vector with mean %r and deviation %r:\n got  %r\n want %r',
                name, mu, sd, got[:, j], want)
        ctx.label('%s, deviation/mean < 1e-8' % name if sd < 1e-8 * abs(mu) else '%s, tiny' % name if sd < 1e-8 else name)


@st.composite
def log_cases(draw):
    return dict(base=draw(st.sampled_from([2.0, 10.0, 0.5, 2.718281828459045, 3.7, 2.72, 2.7, 1.0001, 1e6, 1e-3])),
                off=draw(st.sampled_from([1.0, 0.0, 0.5, 4.0, -1.0])),
                m=draw(gens.explicit((1, 4), (1, 4), st.sampled_from(
                    [0.0, 1.0, 2.0, 0.25, 8.0, 100.0, -0.5, -1.0, -2.0, 1e-6, 3.0, 5.0, 1e-13, 1e-200, 1e12]))))


@sub('C12', 'log-domain', lambda: log_cases(), 1000)
def log_domain(case, ctx):
    """Log yields the logarithm of value plus offset, and refuses data for which that is zero or negative."""
    x = gens.expand(case['m'])
    t = T.Log()
    t.base, t.offset = case['base'], case['off']
    ok = np.all(x + case['off'] > 0)
    ctx.label('defined' if ok else 'undefined')
    try:
        r = t.transform(M(x))
    except ValueError:
        require(not ok, 'Log refused positive data')
        return
    require(ok, 'Log accepted data whose logarithm is undefined')
    close(arr(r, 'Log', x.shape), np.log(x + case['off']) / np.log(case['base']), 'Log', 1e-11, None if mx(np.log(x + case['off'])) > 1e-3 else 1.0)
    back = arr(t.inverse_transform(r), 'inverse Log', x.shape)
    close(back, x, 'inverse Log', 1e-9, mx(x) + abs(case['off']) + 1e-3)


@st.composite
def sampling_cases(draw):
    return dict(x=draw(gens.recipe(draw(st.integers(20, 160)), (1, 4), ('gauss', 'pos', 'int', 'spec'), (-1, 1))),
                rows=draw(st.integers(1, 8)), nq=draw(st.sampled_from([2, 3, 5, 10])), sub=draw(st.sampled_from([10, 12, 25, 60, 159, 400])),
                seed=draw(st.sampled_from([0, 1, 2, 7, 12345])), dist=draw(st.sampled_from(['uniform', 'normal'])), zeros=draw(st.sampled_from([False, False, True])))


@sub('C12', 'quantile-sampling', lambda: sampling_cases(), 500)
def quantile_sampling(case, ctx):
    """Quantiles are estimated from the requested number of rows, drawn with the requested seed: the values are those of
    the reference implementation with the same options, and a fixed seed gives the same values every time."""
    x = gens.expand(case['x'])
    z = x[:case['rows']] * 0.9 + 0.05
    ref = skp.QuantileTransformer(n_quantiles=case['nq'], subsample=case['sub'], random_state=case['seed'],
                                  output_distribution=case['dist'], ignore_implicit_zeros=False).fit(x.copy())
    got = []
    for _ in range(2):
        t = make('QuantileTransformer', [['subsample', case['sub']], ['random_state', case['seed']], ['n_quantiles', case['nq']],
                                         ['output_distribution', case['dist']], ['ignore_implicit_zeroes', case['zeros']]])
        t.configure(M(x))
        got.append(arr(t.transform(M(z)), 'QuantileTransformer', z.shape))
        close(arr(t.transform(M(x)), 'QuantileTransformer', x.shape), ref.transform(x), 'quantiles of the configuring data', 1e-9, 1.0)
        u = (got[-1] + (1.0 if case['dist'] == 'uniform' else 0.0)) / 2
        close(arr(t.inverse_transform(M(u)), 'inverse', z.shape), ref.inverse_transform(u), 'inverse quantiles', 1e-9, mx(x))
    close(got[0], ref.transform(z), 'quantiles of other data', 1e-9, 1.0)
    same(got[1], got[0], 'second transformation with the same seed')
    if case['sub'] >= len(x):
        ctx.trivial('every row is used')


# ----------------------------------------------------------------------------------------- C10
@oracle
def sk_round(name, opts, x, z):
    """Largest error of the reference implementation's own round trip; None where it is not finite."""
    o = {k: v for k, v in opts}
    if name == 'PowerTransformer':
        t = skp.PowerTransformer(method=o.get('method', 'yeo-johnson'), standardize=o.get('standardise', True)).fit(x)
    elif name == 'QuantileTransformer':
        t = skp.QuantileTransformer(n_quantiles=o.get('n_quantiles', 1000),
                                    output_distribution=o.get('output_distribution', 'uniform')).fit(x)
    else:
        return 0.0
    b = t.inverse_transform(t.transform(z))
    return float(np.abs(b - z).max()) if np.all(np.isfinite(b)) else None


@sub('C10', 'transform-inverse', lambda: fit_apply(INVERTIBLE), 3200)
def transform_inverse(case, ctx):
    """The inverse transform undoes the transform, for the data it was configured on and for other data."""
    name, opts = case['t'], case['opts']
    x, z = data(case)
    t = make(name, opts)
    ctx.label(name)
    t.configure(M(x))
    for what, a in (('configuring data', x), ('other data', z)):
        if name == 'QuantileTransformer' and a is z:
            continue    # values outside the configured range are clipped
        e = sk_round(name, opts, x, a)
        scale = max(mx(a), mx(x))
        if e is None or e > 1e-6 * scale:
            ctx.label('reference round trip inexact')
            continue
        g = t.transform(M(a))
        b = arr(t.inverse_transform(g), '%s: inverse of %s' % (name, what), a.shape)
        close(b, a, '%s: inverse of the transformed %s' % (name, what), 2e-6 if e > 0 else 1e-9,
              scale * (1.0 if name != 'Log' else 1.0) + (10.0 if name == 'Log' else 0.0))


@st.composite
def offset_cases(draw):
    return dict(base=draw(st.sampled_from([None, 2.0, 10.0, 0.5, 3.7, 2.72, 1e3])), off=draw(st.sampled_from([0.0, -1.0, -2.5, -100.0, 7.0, 1e-3, 1e4])),
                x=draw(gens.recipe((1, 5), (1, 5), ('pos',), (-2, 3))))


@sub('C10', 'log-offset', lambda: offset_cases(), 600)
def log_offset(case, ctx):
    """The logarithm can be undone whatever the offset, as long as value plus offset is positive."""
    t = T.Log()
    if case['base'] is not None:
        t.base = case['base']
    t.offset = case['off']
    x = gens.expand(case['x']) - case['off']
    s = mx(x) + abs(case['off']) + 1.0
    b = arr(t.inverse_transform(t.transform(M(x))), 'inverse of Log', x.shape)
    close(b, x, 'inverse of Log', 1e-11, s)
    z = np.log(gens.expand(case['x'])) / np.log(case['base'] or np.e)
    f = arr(t.transform(t.inverse_transform(M(z))), 'Log of its inverse', z.shape)
    slope = s / gens.expand(case['x']).min() / abs(np.log(case['base'] or np.e))
    close(f, z, 'Log of its inverse', 1e-13, slope + mx(z) + 10)


@sub('C10', 'inverse-transform', lambda: fit_apply(('Center', 'Standardize', 'RobustScaler', 'Log')), 1600)
def inverse_transform(case, ctx):
    """Transforming what the inverse transform produced gives the start back."""
    name, opts = case['t'], case['opts']
    x, z = data(case)
    if name == 'Log':
        z = np.clip(z, 0.25, 6.0)
    t = make(name, opts)
    if name != 'Log':
        t.transform(M(x))
    else:
        t.transform(M(np.abs(x)))
    ctx.label(name)
    b = t.inverse_transform(M(z))
    f = arr(t.transform(b), '%s: transform of inverse' % name, z.shape)
    # rounding of the intermediate result, divided by the smallest scale
    slope = 1.0
    if name in ('Standardize', 'RobustScaler'):
        w = reference(name, opts, x, np.zeros((1, x.shape[1])))
        w1 = reference(name, opts, x, np.ones((1, x.shape[1])))
        if w is None:
            return ctx.trivial('tiny quantile range')
        slope = max(1.0, mx(w1 - w))
    amp = mx(arr(b, 'inverse'))
    close(f, z, '%s: transform of the inverse transform' % name, 1e-9, (mx(z) + amp) * slope + 1.0)


# ----------------------------------------------------------------------------------------- C11
SINGLE_ROW = ('Center', 'Log', 'FFT', 'PassThrough', 'SavitzkyGolay', 'SavitzkyGolay2', 'RowNorm')
ANY_WIDTH = ('Log', 'FFT', 'PassThrough', 'SavitzkyGolay', 'SavitzkyGolay2', 'RowNorm')


@st.composite
def lifecycle_cases(draw):
    name = draw(st.sampled_from(sorted(OPTIONS)))
    widths = st.integers(8, 11) if name.startswith('Savitzky') else \
        st.integers(2, 5) if name == 'RowNorm' else st.integers(1, 5)
    c = draw(widths)
    few = 1 if name in SINGLE_ROW else 3
    ds = [draw(gens.recipe((few, 9), c, kinds(name), None))]
    own = draw(st.integers(0, 3)) == 0           # data sets of several widths
    for _ in range(draw(st.integers(1, 2))):
        ds.append(draw(gens.recipe(draw(st.sampled_from([(1, 1), (1, 9), (1, 9)])), draw(widths) if own else c, kinds(name), None)))
    ops = []
    if draw(st.integers(0, 2)) == 0:             # fitted twice, with or without something in between
        a, b = draw(st.permutations(range(len(ds))))[:2]
        ops.append([draw(st.sampled_from(['configure', 'transform'])), a])
        ops += draw(st.sampled_from([[], [['inverse', a]], [['transform', b]], [['poke', a]]]))
        ops += [['configure', b], [draw(st.sampled_from(['transform', 'inverse'])), draw(st.sampled_from([a, b]))]]
    for _ in range(draw(st.integers(0 if ops else 2, 9))):
        k = draw(st.sampled_from(['transform', 'transform', 'transform', 'inverse', 'configure', 'configure', 'reset', 'set',
                                  'set', 'reject', 'poke']))
        if k in ('transform', 'inverse', 'configure', 'poke'):
            ops.append([k, draw(st.integers(0, len(ds) - 1))])
        elif k == 'reset':
            ops.append([k])
        elif OPTIONS[name]:
            opt, good, bad = draw(st.sampled_from(OPTIONS[name]))
            if k == 'reject' and bad:
                ops.append(['reject', opt, draw(st.sampled_from(bad))])
            else:
                ops.append(['set', opt, draw(st.sampled_from(good))])
    ops.append(['transform', draw(st.integers(0, len(ds) - 1))])
    return dict(t=name, data=ds, ops=ops)


@sub('C11', 'history', lambda: lifecycle_cases(), 4000)
def history(case, ctx):
    """Model-based: whatever was done before, a transformation acts like a fresh one with the current options that was
    configured on the data current since the last reset or option change; rejected options change nothing."""
    name = case['t']
    ds = [gens.expand(s) for s in case['data']]
    ms = [M(d) for d in ds]
    t = make(name, [])
    opts, conf = {}, None
    results = []
    ctx.label(name)

    def fresh(i):
        f = make(name, list(opts.items()))
        if conf is not None:
            f.configure(M(conf))
        return f

    def usable(op):
        d = ds[op[1]]
        if op[0] == 'configure' or (op[0] == 'transform' and conf is None):
            return name in SINGLE_ROW or d.shape[0] >= 3        # enough rows to be configured on
        return conf is None or name in ANY_WIDTH or d.shape[1] == conf.shape[1]

    nconf = 0
    for step, op in enumerate(case['ops']):
        where = 'step %d %r' % (step, op)
        if op[0] in ('configure', 'transform', 'inverse') and not usable(op):
            continue
        if op[0] == 'reset':
            t.reset()
            conf = None
        elif op[0] == 'configure':
            t.configure(ms[op[1]])
            if name != 'RowNorm':
                conf = ds[op[1]].copy()
        elif op[0] == 'poke':       # the caller goes on with its data; what was fitted before stays
            ds[op[1]] = np.abs(ds[op[1]][::-1] * 1.5) + 0.25
            ms[op[1]].data[...] = ds[op[1]]
        elif op[0] == 'set':
            setattr(t, op[1], tuple(op[2]) if isinstance(op[2], list) else op[2])
            opts[op[1]] = op[2]
            if name not in ('FFT',):
                conf = None
        elif op[0] == 'reject':
            before = getattr(t, op[1])
            try:
                setattr(t, op[1], tuple(op[2]) if isinstance(op[2], list) else op[2])
                fail('%s: invalid value accepted', where)
            except ValueError:
                pass
            require(getattr(t, op[1]) == before, '%s: rejected value changed the option', where)
        elif op[0] == 'transform':
            i = op[1]
            if name != 'RowNorm' and conf is None:
                conf, nconf = ds[i].copy(), nconf + 1
            r = arr(t.transform(ms[i]), where)
            want = arr(fresh(i).transform(M(ds[i])), 'fresh ' + where)
            close(r, want, where + ' against a fresh transformation', 1e-12, max(mx(want), 1e-12))
            if name != 'PassThrough':
                require(not np.shares_memory(r, ms[i].data), '%s: result shares memory with the input', where)
                results.append((where, r, r.copy()))
        elif op[0] == 'inverse':
            i = op[1]
            if name.startswith('Savitzky'):
                continue
            if name == 'FFT':
                if opts.get('output_mode', 4) not in (3, 12):
                    try:
                        t.inverse_transform(ms[i])
                        fail('%s: inverse of an output mode that loses information', where)
                    except ValueError:
                        continue
            elif name == 'RowNorm' or conf is None:
                continue
            r = arr(t.inverse_transform(ms[i]), where, finite=False)
            want = arr(fresh(i).inverse_transform(M(ds[i])), 'fresh ' + where, finite=False)
            if not np.all(np.isfinite(want)):
                continue
            close(r, want, where + ' against a fresh transformation', 1e-12, max(mx(want), 1e-12))
            if name != 'PassThrough':
                results.append((where, r, r.copy()))
        for d, m, s in zip(ds, ms, range(9)):
            same(m.data, d, '%s: input data set %d changed' % (where, s))
        for w, r, c in results:
            same(r, c, '%s: result of %s changed' % (where, w))
    if len(case['ops']) < 3:
        ctx.trivial('short history')
