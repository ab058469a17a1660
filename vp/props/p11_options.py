"""C35 options: documented defaults, exactly the documented domain, independent of the order they are set in."""
import numpy as np
from hypothesis import strategies as st

from wai.ma.algorithm import PCA
from wai.ma.algorithm.ica import FastICA
from wai.ma.algorithm.ica.approxfun import Cube, Exponential, LogCosH
from wai.ma.algorithm.ica._FastICA import Algorithm
from wai.ma.algorithm.pls import PLS1, SIMPLS
from wai.ma.algorithm.pls._NIPALS import DeflationMode
from wai.ma.core import PreprocessingType
from wai.ma.filter import Downsample, Equidistance
from wai.ma.transformation import (FFT, Log, MultiplicativeScatterCorrection, PowerTransformer, QuantileTransformer,
                                   RobustScaler, SavitzkyGolay, SavitzkyGolay2)
from wai.ma.transformation._FFT import OutputMode
from wai.ma.transformation._MultiplicativeScatterCorrection import RangeBased
from wai.ma.transformation.kernel import LinearKernel, PolyKernel, RBFKernel

from .. import algs, gens
from ..algs import M
from ..engine import fail, require, sub
from ..ref import arr
from .p09_lifecycle import CLASSES as TRAINED, FILTERS, agree, decomposed, results, train

MODES = ['unsupervised', 'supervised', 'semisupervised']
TRANS = dict(FFT=FFT, Log=Log, MSC=MultiplicativeScatterCorrection, PowerTransformer=PowerTransformer,
             QuantileTransformer=QuantileTransformer, RobustScaler=RobustScaler, SavitzkyGolay=SavitzkyGolay,
             SavitzkyGolay2=SavitzkyGolay2)
PLAIN = dict(PolyKernel=PolyKernel, RBFKernel=RBFKernel, LogCosH=LogCosH, Downsample=Downsample, Equidistance=Equidistance)
DECOMP = dict(PCA=PCA, FastICA=FastICA)


# ---------------------------------------------------------------- the specification: default, domain, values around its edge
class Opt:
    def __init__(self, default, ok=None, values=(), floats=None, kind=None):
        self.default, self.ok, self.values, self.floats, self.kind = default, ok or (lambda v: True), list(values), floats, kind


def at_least(lo, default, values):
    """Whole numbers from lo on."""
    return Opt(default, lambda v: v >= lo, [lo, lo, lo - 1, lo - 1, lo + 1, -7] + list(values))


def number(default, ok, edge, values, lo, hi):
    """Real numbers, with the edge of the domain and what is just beside it."""
    near = [f(e) for e in edge for f in (lambda e: e, lambda e: float(np.nextafter(e, np.inf)), lambda e: float(np.nextafter(e, -np.inf)),
                                         lambda e: e + 1e-3, lambda e: e - 1e-3)]
    return Opt(default, ok, near + list(values), (lo, hi))


def enum(default, cls, names):
    return Opt(default, None, names, kind=cls)


BOOL = [True, False]
ITER = lambda: at_least(0, 500, [1, 2, 3, 50])
TOL = lambda d: number(d, lambda v: v >= 0, [0.0], [1e-9, 1e-3], -1e-3, 1e-2)
PREP = ('preprocessing_type', enum('NONE', PreprocessingType, ['NONE', 'CENTER', 'STANDARDIZE']))
COMP = ('num_components', Opt(5, None, [1, 2, 3, 4, 5, 6]))
REAL = lambda d, values: Opt(d, None, values, (-3.0, 3.0))
SPEC = dict(
    PLS1=[COMP, PREP],
    SIMPLS=[COMP, PREP, ('num_coefficients', Opt(0, None, [0, 1, 2, 3, -1, 50]))],
    VCPLS=[COMP, PREP, ('lambda_', REAL(1.0, [1.0, 0.5, 0.1, 0.01]))],
    NIPALS=[COMP, PREP, ('tol', TOL(1e-6)), ('max_iter', ITER()), ('norm_Y_weights', Opt(False, None, BOOL)),
            ('deflation_mode', enum('REGRESSION', DeflationMode, ['REGRESSION', 'CANONICAL']))],
    CCARegression=[COMP, PREP, ('tol', TOL(1e-6)), ('max_iter', ITER()), ('norm_Y_weights', Opt(False, None, BOOL)),
                   ('deflation_mode', Opt('CANONICAL', lambda v: 'CANONICAL', ['REGRESSION', 'CANONICAL'], kind=DeflationMode))],
    KernelPLS=[COMP, PREP, ('tol', TOL(1e-6)), ('max_iter', ITER()), ('kernel', Opt('RBF', None, ['RBF', 'Linear', 'Poly'], kind='kernel'))],
    SparsePLS=[COMP, PREP, ('tol', TOL(1e-7)), ('max_iter', ITER()), ('lambda_', number(0.5, lambda v: v >= 0, [0.0], [0.3, 0.5, 0.8], -0.9, 0.9))],
    OPLS=[COMP, PREP, ('base_PLS', Opt('PLS1', None, ['PLS1', 'SIMPLS'], kind='base'))],
    PRM=[COMP, PREP, ('tol', TOL(1e-6)), ('max_iter', ITER()), ('C', number(4.0, lambda v: abs(v) >= 1e-10, [1e-10, -1e-10], [4.0, 1.0, 20.0, 0.0], 0.5, 30.0)),
         ('num_SIMPLS_coefficients', Opt(-1, None, [-1, 1, 2, 3]))],
    DIPLS=[COMP, PREP, ('lambda_', number(1.0, lambda v: abs(v) >= 1e-8, [1e-8, -1e-8], [1.0, 0.1, 10.0, 0.0, 1e-9], -3.0, 10.0))],
    GLSW=[('alpha', number(1e-3, lambda v: v > 0, [0.0], [1e-3, 0.1, 1.0, 100.0], -1.0, 2.0))],
    EPO=[('alpha', number(1e-3, lambda v: v > 0, [0.0], [1e-3, 0.1], -1.0, 2.0)), ('N', at_least(1, 5, [2, 3, 4, 5]))],
    YGradientGLSW=[('alpha', number(1e-3, lambda v: v > 0, [0.0], [1e-3, 0.1, 1.0], -1.0, 2.0))],
    YGradientEPO=[('N', at_least(1, 5, [2, 3, 4, 5]))],
    CCAFilter=[('kcca', at_least(1, 1, [2, 3])), ('lambda_X', Opt(1e-2, None, [1e-2, 0.5, 3.0])), ('lambda_Y', Opt(1e-2, None, [1e-2, 0.5, 3.0]))],
    PCA=[('variance', number(0.95, lambda v: 0 < v < 1, [0.0, 1.0], [0.95, 0.5, 0.8], -0.5, 1.5)),
         ('max_columns', Opt(-1, lambda v: v == -1 or v > 0, [-1, 0, 0, 1, 2, 3, -2, -2, -7])), ('center', Opt(False, None, BOOL))],
    FastICA=[('num_components', at_least(1, 5, [2, 3])), ('whiten', Opt(True, None, BOOL)), ('max_iter', at_least(0, 500, [1, 5, 20])),
             ('tol', TOL(1e-4)), ('fun', Opt('LogCosH', None, ['LogCosH', 'Cube', 'Exponential'], kind='fun')),
             ('algorithm', enum('DEFLATION', Algorithm, ['DEFLATION', 'PARALLEL']))],
    FFT=[('orthonormalisation', Opt(False, None, BOOL)),
         ('output_mode', enum('AMPLITUDE_ONLY', OutputMode, ['AMPLITUDE_ONLY', 'REAL_COMPONENT_ONLY', 'IMAG_COMPONENT_ONLY',
                                                             'REAL_AND_IMAG_PAIRS', 'PHASE_ANGLE_ONLY', 'AMPL_ANGLE_PAIRS']))],
    Log=[('base', number(float(np.e), lambda v: v > 0 and v != 1, [0.0, 1.0], [2.0, 10.0, 0.5, float(np.e)], -1.0, 12.0)), ('offset', REAL(1.0, [0.0, 1.0, 2.5]))],
    MSC=[('ranges', Opt([], None, [[], [[0, 4]], [[2, 5]], [[0, 3], [4, 8]]], kind='ranges'))],
    PowerTransformer=[('method', Opt('yeo-johnson', lambda v: v in ('yeo-johnson', 'box-cox'), ['yeo-johnson', 'box-cox', 'box_cox', 'Box-Cox', '', 'yeo'])),
                      ('standardise', Opt(True, None, BOOL))],
    QuantileTransformer=[('n_quantiles', Opt(1000, None, [1000, 10, 5, 100])), ('subsample', Opt(100000, None, [100000, 2000])),
                         ('output_distribution', Opt('uniform', lambda v: v in ('uniform', 'normal'), ['uniform', 'normal', 'gauss', '', 'Normal'])),
                         ('ignore_implicit_zeroes', Opt(False, None, [False]))],
    RobustScaler=[('with_centering', Opt(True, None, BOOL)), ('with_scaling', Opt(True, None, BOOL)),
                  ('quantile_range', Opt([25.0, 75.0], lambda v: 0 < v[0] < v[1] < 100,
                                         [[25.0, 75.0], [10.0, 90.0], [5.0, 60.0], [0.0, 50.0], [1e-3, 50.0], [50.0, 100.0], [50.0, 99.999], [50.0, 50.0],
                                          [75.0, 25.0], [-5.0, 50.0], [50.0, 101.0]]))],
    SavitzkyGolay=[('polynomial_order', at_least(2, 2, [3, 4])), ('derivative_order', at_least(0, 1, [2])),
                   ('num_points_left', at_least(0, 3, [2, 4])), ('num_points_right', at_least(0, 3, [2, 4]))],
    SavitzkyGolay2=[('polynomial_order', at_least(2, 2, [3, 4])), ('derivative_order', at_least(0, 1, [2])), ('num_points', at_least(0, 3, [2, 4]))],
    PolyKernel=[('degree', Opt(3, lambda v: v > 0 or 'kept', [1, 2, 3, 4, 0, 0, -1])), ('coef_0', REAL(0.0, [0.0, 1.0])), ('gamma', REAL('1/columns', [1.0, 0.25]))],
    RBFKernel=[('gamma', REAL(1.0, [1.0, 0.25, 'nan']))],
    LogCosH=[('alpha', REAL(1.0, [1.0, 1.5, 2.0]))],
    Downsample=[('start_index', Opt(0, None, [0, 1, 2])), ('step', Opt(1, None, [1, 2, 3]))],
    Equidistance=[('num_samples', at_least(2, None, [3, 5, 9]))])


def value(o, v, data):
    """The object a value in a case stands for."""
    if v == 'nan':
        return float('nan')
    if v == '1/columns':
        return 1.0 / data[0].shape[1]
    if o.kind == 'kernel':
        k = dict(RBF=RBFKernel, Linear=LinearKernel, Poly=PolyKernel)[v]()
        if v == 'RBF':
            k.gamma = 1.0
        return k
    if o.kind == 'base':
        b = dict(PLS1=PLS1, SIMPLS=SIMPLS)[v]()
        b.num_components = 5
        return b
    if o.kind == 'fun':
        return LogCosH(1.0) if v == 'LogCosH' else dict(Cube=Cube, Exponential=Exponential)[v]()
    if isinstance(o.kind, type):
        return getattr(o.kind, v)
    return [tuple(x) for x in v] if o.kind == 'ranges' else tuple(v) if isinstance(v, list) else v


def assign(name, obj, opt, v, data):
    o = dict(SPEC[name])[opt]
    if o.kind == 'ranges':
        obj.correction.ranges = value(o, v, data)
    else:
        setattr(obj, opt, value(o, v, data))


def holds(name, obj, opt, v, data, where):
    """The option has the value."""
    o = dict(SPEC[name])[opt]
    want = value(o, v, data)
    if o.kind == 'ranges':
        require(isinstance(obj.correction, RangeBased), '%s: correction is %r', where, obj.correction)
        now = obj.correction.ranges
    else:
        now = getattr(obj, opt)
    if o.kind in ('kernel', 'base', 'fun'):
        ok = type(now) is type(want)
    elif isinstance(want, float) and np.isnan(want):
        ok = np.isnan(now)
    elif v == '1/columns':
        ok = np.isnan(now) or now == want
    elif isinstance(want, bool):
        ok = bool(now) is want
    else:
        ok = now == want
    require(ok, '%s: option %s is %r, expected %r', where, opt, now, want)


def create(name):
    if name == 'Equidistance':
        return Equidistance(4)
    return {**TRAINED, **DECOMP, **TRANS, **PLAIN}[name]()


def initial(name, opt):
    return 4 if name == 'Equidistance' else dict(SPEC[name])[opt].default


def outcome(name, obj, data, mode):
    """All results of using the object on the data, or how it refuses."""
    X, Y = data
    if name in DECOMP:
        return decomposed(name, obj, X)
    if name in TRAINED:
        r = train(name, obj, X, Y, mode)
        return results(name, obj, X, Y) if r is None else str(r)
    try:
        if name in ('PolyKernel', 'RBFKernel'):
            out = [('kernel', arr(obj.apply_matrix(M(X), M(Y)), 'kernel', finite=False)), ('self', arr(obj.apply_matrix(M(X)), 'kernel', finite=False)),
                   ('vector', np.array([[float(obj.apply_vector(M(X[:1]), M(Y[:1])))]]))]
        elif name == 'LogCosH':
            a, b = obj.apply(M(X))
            out = [('g', arr(a, 'g', finite=False)), ("g'", arr(b, "g'", finite=False))]
        else:
            t = obj.transform(M(X))
            out = [('transform', arr(t, 'transform', finite=False))]
            if name in ('Log', 'PowerTransformer', 'QuantileTransformer', 'RobustScaler'):
                out.append(('inverse', arr(obj.inverse_transform(t), 'inverse', finite=False)))
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        return 'raised ' + type(e).__name__
    return out


def slow(opts):
    """Tuning constants so small that the robust weights vanish: allowed, but they take every loop to its limit."""
    return abs(opts.get('C', 1.0)) < 0.3


def alike(got, want, where):
    if isinstance(got, str) or isinstance(want, str):
        require(got == want, '%s: %r, expected %r', where, got if isinstance(got, str) else 'a result', want if isinstance(want, str) else 'a result')
        return False
    diff = agree(got, want)
    require(diff is None, '%s: %s', where, diff)
    return True


def again(name, obj):
    """Forgets what the object was configured with, where results could be of earlier data."""
    if name in DECOMP or name in TRANS:
        obj.reset()


@st.composite
def data_for(draw, name):
    if name == 'MSC':
        return [draw(gens.recipe((9, 12), 2, ('pos',), None)), None]
    if name in TRANS or name in ('Downsample', 'Equidistance'):
        return [draw(gens.recipe((6, 20), (7, 12), ('pos',), (-1, 1))), None]
    if name in PLAIN:
        c = draw(gens.dim(1, 4))
        return [draw(gens.recipe((1, 5), c, ('gauss', 'pos'), None)), draw(gens.recipe((1, 5), c, ('gauss', 'pos'), None))]
    if name in DECOMP:
        return [draw(gens.recipe((6, 12), (2, 5), ('gauss', 'corr', 'pos'), None)), None]
    n, p = draw(st.integers(9, 14)), draw(gens.dim(6, 8, 12))
    q = draw(st.integers(1, 3)) if name in algs.MULTI or name == 'CCAFilter' else 1
    return [draw(gens.recipe(n, p, ('gauss', 'corr', 'pos'), None)), draw(gens.recipe(n, p if name in ('GLSW', 'EPO') else q, ('gauss', 'pos'), None))]


def load(name, case):
    X, Y = [None if d is None else gens.expand(d) for d in case['data']]
    if name == 'MSC':
        X = np.column_stack([np.arange(len(X), dtype=float), X])
    return X, Y


# --------------------------------------------------------------------------------------------------------------- defaults
@st.composite
def default_cases(draw):
    name = draw(st.sampled_from([n for n in sorted(SPEC) if n != 'Equidistance']))
    opts = [o for o, _ in SPEC[name]]
    return dict(name=name, data=draw(data_for(name)), mode=draw(st.sampled_from(MODES)),
                set=draw(st.lists(st.sampled_from(opts), min_size=1, max_size=len(opts), unique=True)), init=draw(st.booleans()))


@sub('C35', 'defaults', lambda: default_cases(), 1200)
def defaults(case, ctx):
    """A new object (or a re-initialised one) has the default options and computes exactly what an object does whose options
    were set to them."""
    name = case['name']
    data = load(name, case)
    a, b = create(name), create(name)
    if case['init'] and (name in TRAINED or name in DECOMP):
        a.initialize()
    for opt, o in SPEC[name]:
        holds(name, a, opt, o.default, data, 'new ' + name)
    for opt in case['set']:
        assign(name, b, opt, dict(SPEC[name])[opt].default, data)
    ctx.label(name)
    if not alike(outcome(name, a, data, case['mode']), outcome(name, b, data, case['mode']),
                 'new %s, compared to one with %s set to the default' % (name, case['set'])):
        ctx.trivial('training impossible')


# ----------------------------------------------------------------------------------------------------------------- domain
@st.composite
def domain_cases(draw):
    name = draw(st.sampled_from(sorted(SPEC)))
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        opt, o = draw(st.sampled_from(SPEC[name]))
        if o.floats and draw(st.integers(0, 2)) == 0:
            v = draw(st.floats(*o.floats, allow_nan=False))
        else:
            v = draw(st.sampled_from(o.values))
        ops.append([opt, v])
    return dict(name=name, data=draw(data_for(name)), mode=draw(st.sampled_from(MODES)), ops=ops,
                use=draw(st.integers(0, len(ops))), order=draw(gens.seeds()))


@sub('C35', 'domain', lambda: domain_cases(), 2500)
def domain(case, ctx):
    """Values inside the domain are taken and reported back, values outside are refused with ValueError; refused values change
    neither an option nor what was trained; other options never change; the result depends on the final values only, not on
    the order in which options were set."""
    name = case['name']
    data = load(name, case)
    spec = dict(SPEC[name])
    obj = create(name)
    opts = {o: initial(name, o) for o in spec}
    ctx.label(name)
    used = None
    rejected = 0
    for step, (opt, v) in enumerate(case['ops']):
        if step == case['use'] and name != 'DIPLS' and not slow(opts):     # training DIPLS twice is the subject of C32
            used = outcome(name, obj, data, case['mode'])
        where = '%s step %d: %s=%r' % (name, step, opt, v)
        ok = spec[opt].ok(v)
        try:
            assign(name, obj, opt, v, data)
            taken = True
        except ValueError:
            taken = False
        if ok is False:
            require(not taken, '%s: accepted', where)
            rejected += 1
            ctx.label('refused')
            if used is not None and not isinstance(used, str) and name in TRAINED:
                require(obj.is_initialised(), '%s: refused value ended the training', where)
                alike(results(name, obj, *data), used, where + ': results changed by a refused value')
            if used is not None and name in TRANS:
                require(obj.configured is (not isinstance(used, str)) or isinstance(used, str), '%s: refused value ended the configuration', where)
                alike(outcome(name, obj, data, None), used, where + ': results changed by a refused value')
        else:
            require(taken, '%s: refused', where)
            if ok is True:
                opts[opt] = v
            used = None
        for o, w in opts.items():
            holds(name, obj, o, w, data, where)
    if slow(opts):
        return ctx.trivial('not used with these values')
    again(name, obj)
    got = outcome(name, obj, data, case['mode'])
    f = create(name)
    names = [o for o in opts if opts[o] != initial(name, o) or o in [x for x, _ in case['ops']]]
    np.random.Generator(np.random.PCG64(case['order'])).shuffle(names)
    for o in names:
        assign(name, f, o, opts[o], data)
    if not alike(got, outcome(name, f, data, case['mode']), '%s with %r, set in the order %r' % (name, opts, names)):
        ctx.label('impossible')


# ----------------------------------------------------------------------------------------------------------- constructors
@sub('C35', 'constructors', lambda: st.tuples(st.sampled_from(['Equidistance', 'LogCosH', 'FFT']), st.integers(-20, 20), st.integers(1, 6), gens.seeds()).map(list), 300)
def constructors(case, ctx):
    """Values given on construction are treated like values set later; the output mode of FFT can be given as its number."""
    name, v, c, seed = case
    X = gens.expand(dict(r=2, c=c, kind='gauss', seed=seed))
    ctx.label(name)
    if name == 'Equidistance':
        try:
            f = Equidistance(v)
        except ValueError:
            return require(v < 2, 'Equidistance(%d) refused', v)
        require(v >= 2 and f.num_samples == v, 'Equidistance(%d): %r samples', v, f.num_samples)
        g = Equidistance(2)
        g.num_samples = v
        alike(outcome(name, f, (X, None), None), outcome(name, g, (X, None), None), 'Equidistance(%d)' % v)
    elif name == 'LogCosH':
        f, g = LogCosH(v / 10), LogCosH()
        g.alpha = v / 10
        require(f.alpha == v / 10, 'LogCosH(%r): alpha %r', v / 10, f.alpha)
        alike(outcome(name, f, (X, None), None), outcome(name, g, (X, None), None), 'LogCosH(%r)' % (v / 10))
    else:
        modes = {m.value: m for m in (OutputMode.AMPLITUDE_ONLY, OutputMode.REAL_COMPONENT_ONLY, OutputMode.IMAG_COMPONENT_ONLY,
                                      OutputMode.REAL_AND_IMAG_PAIRS, OutputMode.PHASE_ANGLE_ONLY, OutputMode.AMPL_ANGLE_PAIRS)}
        require(sorted(modes) == [1, 2, 3, 4, 8, 12], 'numbers of the output modes: %r', sorted(modes))
        f, g = FFT(), FFT()
        try:
            f.output_mode = v
        except ValueError:
            require(v not in modes, 'output mode %d refused', v)
            return require(f.output_mode is OutputMode.AMPLITUDE_ONLY, 'refused output mode changed it to %r', f.output_mode)
        require(v in modes and f.output_mode is modes[v], 'output mode %d: %r', v, f.output_mode)
        g.output_mode = modes[v]
        alike(outcome(name, f, (X, None), None), outcome(name, g, (X, None), None), 'output mode %d' % v)
