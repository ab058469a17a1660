"""C32 life cycle of trained algorithms."""
import numpy as np
from hypothesis import strategies as st

from wai.ma.algorithm import CCAFilter, PCA
from wai.ma.algorithm.glsw import EPO, GLSW, YGradientEPO, YGradientGLSW
from wai.ma.algorithm.ica import FastICA
from wai.ma.algorithm.ica.approxfun import Cube, Exponential, LogCosH
from wai.ma.algorithm.ica._FastICA import Algorithm
from wai.ma.algorithm.pls._NIPALS import DeflationMode
from wai.ma.core import PreprocessingType

from .. import algs, gens
from ..algs import M
from ..engine import fail, require, sub
from ..ref import arr, close, mx, same, short

FILTERS = dict(GLSW=GLSW, EPO=EPO, YGradientGLSW=YGradientGLSW, YGradientEPO=YGradientEPO, CCAFilter=CCAFilter)
CLASSES = dict(algs.CLASSES, **FILTERS)
PREPS = ['NONE', 'CENTER', 'STANDARDIZE']
LOOP = [('max_iter', [500, 50, 3], [-1, -5]), ('tol', [1e-6, 1e-9, 1e-3], [-1e-9, -1.0])]
PLS = [('num_components', [1, 2, 3, 5], []), ('preprocessing_type', PREPS, [])]
BAD_N = [('N', [1, 2, 3], [0, -1])]
# (option, accepted values, rejected values)
OPTIONS = dict(
    PLS1=PLS, SIMPLS=PLS + [('num_coefficients', [0, 1, 2, -1], [])], VCPLS=PLS + [('lambda_', [1.0, 0.5, 0.1], [])],
    NIPALS=PLS + LOOP + [('norm_Y_weights', [False, True], []), ('deflation_mode', ['REGRESSION', 'CANONICAL'], [])],
    CCARegression=PLS + LOOP + [('norm_Y_weights', [False, True], [])],
    KernelPLS=PLS + LOOP + [('kernel', ['rbf', 'linear', 'poly'], [])],
    SparsePLS=PLS + LOOP + [('lambda_', [0.5, 0.0, 0.8], [-0.1, -1.0])],
    OPLS=PLS[1:] + [('num_components', [1, 2, 3], []), ('base_PLS', ['PLS1', 'SIMPLS', 'NIPALS'], [])],
    PRM=PLS + LOOP + [('C', [4.0, 1.0, 20.0], [0.0, 1e-11]), ('num_SIMPLS_coefficients', [-1, 1, 2], [])],
    DIPLS=PLS[1:] + [('num_components', [1, 2, 3], []), ('lambda_', [1.0, 0.1, 10.0], [0.0, 1e-9])],
    GLSW=[('alpha', [1e-3, 0.1, 1.0], [0.0, -1.0])], EPO=BAD_N + [('alpha', [1e-3, 0.1], [0.0, -1.0])],
    YGradientGLSW=[('alpha', [1e-3, 0.1, 1.0], [0.0, -1.0])], YGradientEPO=BAD_N,
    CCAFilter=[('kcca', [1], [0, -1]), ('lambda_X', [1e-2, 0.5], []), ('lambda_Y', [1e-2, 0.5], [])])
KEPT = ('kernel', 'base_PLS')       # objects: compared by identity
MODES = ['unsupervised', 'supervised', 'semisupervised']


def value(opt, v):
    """The object an option's value in the case stands for."""
    if opt == 'preprocessing_type':
        return getattr(PreprocessingType, v)
    if opt == 'deflation_mode':
        return getattr(DeflationMode, v)
    if opt == 'kernel':
        return algs.KERNELS[v]()
    if opt == 'base_PLS':
        b = algs.CLASSES[v]()
        b.num_components = 2
        return b
    return v


@st.composite
def histories(draw):
    name = draw(st.sampled_from(sorted(CLASSES)))
    nd = draw(st.integers(2, 3))
    p = draw(gens.dim(6, 8, 14))
    data = []
    for _ in range(nd):
        n = draw(st.sampled_from([9, 10, 11, 12, 13, 14] * 3 + [3, 4, 5, 6, 7, 8, 20, 33, 65, 101]))
        c = p if name == 'DIPLS' else draw(st.sampled_from([p, p, 6, 7, p, 3]))
        q = draw(st.integers(1, 3)) if name in algs.MULTI or name == 'CCAFilter' else 1
        if name in ('GLSW', 'EPO'):
            q = c
        data.append([draw(gens.recipe(n, c, ('gauss', 'corr', 'pos', 'big'), None)), draw(gens.recipe(n, q, ('gauss', 'pos'), None))])
    opts = OPTIONS[name]
    ops = []
    if draw(st.integers(0, 2)) == 0:            # one option at one value, then at another
        o = draw(st.sampled_from(opts))
        for v in draw(st.lists(st.sampled_from(o[1]), min_size=2, max_size=3, unique=True)) if len(o[1]) > 1 else []:
            ops += [['set', o[0], v], ['train', draw(st.integers(0, nd - 1)), draw(st.sampled_from(MODES))]]
    for _ in range(draw(st.integers(0 if ops else 3, 10))):
        k = draw(st.sampled_from(['train'] * 5 + ['set'] * 3 + ['reject', 'reset', 'init', 'fail', 'fail', 'debug', 'text', 'use', 'use']))
        if k == 'train':
            ops.append([k, draw(st.integers(0, nd - 1)), draw(st.sampled_from(MODES))])
        elif k == 'use':
            ops.append([k, draw(st.integers(0, nd - 1))])
        elif k == 'fail':
            ops.append([k, draw(st.integers(0, nd - 1)), draw(st.sampled_from(['no predictors', 'no response', 'columns', 'plain', 'rows']))])
        elif k == 'set':
            o = draw(st.sampled_from(opts))
            ops.append([k, o[0], draw(st.sampled_from(o[1]))])
        elif k == 'reject':
            bad = [o for o in opts if o[2]]
            if bad:
                o = draw(st.sampled_from(bad))
                ops.append([k, o[0], draw(st.sampled_from(o[2]))])
        else:
            ops.append([k])
    ops.append(['train', draw(st.integers(0, nd - 1)), draw(st.sampled_from(MODES))])
    return dict(alg=name, data=data, ops=ops)


def train(name, alg, X, Y, mode):
    """(outcome, message); the outcome of training is None or an error message, or the type of an exception."""
    try:
        if name in FILTERS:
            r = alg.initialize(M(X), M(Y))
        else:
            r = algs.fit(dict(alg=name, mode=mode), alg, X, Y)
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        return 'raised ' + type(e).__name__
    require(r is None or isinstance(r, str) and r, 'training returned %r', r)
    return r


def results(name, alg, X, Y):
    """Everything observable of a trained algorithm."""
    out = [('transform', arr(alg.transform(M(X)), 'transform', finite=False))]
    if name == 'CCAFilter':
        out += [('transform_response', arr(alg.transform_response(M(Y)), 'transform_response', finite=False)),
                ('proj_X', arr(alg.proj_X, 'proj_X', finite=False)), ('proj_Y', arr(alg.proj_Y, 'proj_Y', finite=False))]
    elif name in FILTERS:
        out.append(('G', arr(alg.G, 'G', finite=False)))
    else:
        require(alg.can_predict() is True, 'can not predict')
        out.append(('predict', arr(alg.predict(M(X)), 'predict', finite=False)))
        for k in alg.get_matrix_names():
            out.append((k, arr(alg.get_matrix(k), k, finite=False)))
        require(alg.has_loadings() is (alg.get_loadings() is not None), 'has_loadings is %r, loadings are %r', alg.has_loadings(), alg.get_loadings())
        if alg.has_loadings():
            out.append(('loadings', arr(alg.get_loadings(), 'loadings', finite=False)))
    return out


def agree(got, want):
    """None, or what differs."""
    if [k for k, _ in got] != [k for k, _ in want]:
        return 'different matrices: %r and %r' % ([k for k, _ in got], [k for k, _ in want])
    for (k, g), (_, w) in zip(got, want):
        if g.shape != w.shape:
            return '%s: shape %r, expected %r' % (k, g.shape, w.shape)
        if not np.array_equal(np.isfinite(g), np.isfinite(w)):
            return '%s: not finite at other places' % k
        ok = np.isfinite(w)
        if ok.any() and np.abs(g[ok] - w[ok]).max() > 1e-9 * np.abs(w[ok]).max():
            return '%s:\n got  %s\n want %s' % (k, short(g), short(w))
    return None


def refused(fn, what):
    try:
        r = fn()
    except RuntimeError:
        return
    fail('%s of an untrained algorithm returned %r', what, r)


def check_untrained(name, alg, X, Y, where):
    refused(lambda: alg.transform(M(X)), where + ': transform')
    if name == 'CCAFilter':
        refused(lambda: alg.transform_response(M(Y)), where + ': transform_response')
        require(alg.proj_X is None and alg.proj_Y is None, '%s: projections of an untrained filter', where)
    elif name in FILTERS:
        require(alg.G is None, '%s: filter matrix of an untrained filter', where)
    else:
        refused(lambda: alg.predict(M(X)), where + ': predict')


def check_empty(name, alg, where):
    """After a reset there is no matrix of the previous training left."""
    if name not in FILTERS:
        for k in alg.get_matrix_names():
            r = alg.get_matrix(k)
            require(r is None, '%s: matrix %s left from an earlier training', where, k)
        r = alg.get_loadings()
        require(r is None, '%s: loadings left from an earlier training', where)


@sub('C32', 'history', lambda: histories(), 2000)
def history(case, ctx):
    """Model-based: an algorithm is trained exactly from a successful training to the next option change, reset, failed or
    new training; trained, it equals a new object with the same options trained on the same data; untrained, it refuses to
    work; rejected option values and failed trainings change no option."""
    name = case['alg']
    ds = [(gens.expand(a), gens.expand(b)) for a, b in case['data']]
    alg = CLASSES[name]()
    default = {o[0]: getattr(alg, o[0]) for o in OPTIONS[name]}
    opts, spec = dict(default), {}
    state, first, trained, matrices = None, None, 0, False
    ctx.label(name)

    def fresh(history=()):
        f = CLASSES[name]()
        for s, i, mode in list(history) + [(spec, state[0], state[1])]:
            for o, v in s.items():
                setattr(f, o, value(o, v))
            for o in default:
                if o not in s:
                    setattr(f, o, getattr(CLASSES[name](), o))
            r = train(name, f, *ds[i], mode)
        return f, r

    for step, op in enumerate(case['ops']):
        where = 'step %d %r' % (step, op)
        kind = op[0]
        if kind == 'train':
            i, mode = op[1], op[2]
            r = train(name, alg, *ds[i], mode)
            state = (i, mode)
            f, want = fresh()
            if name == 'DIPLS' and first is not None and r != want:
                f, want = fresh([first])
                ctx.finding('dipls-centers-kept')
            require(r == want, '%s: training: %r, a new object: %r', where, r, want)
            if r is None:
                X, Y = ds[i]
                got = results(name, alg, X, Y)
                diff = agree(got, results(name, f, X, Y))
                if diff and name == 'DIPLS' and first is not None:
                    f, _ = fresh([first])
                    diff = agree(got, results(name, f, X, Y))
                    ctx.finding('dipls-centers-kept')
                require(diff is None, '%s: differs from a new object: %s', where, diff)
                trained += 1
                if first is None:
                    first = (dict(spec), i, mode)
            else:
                state = None
                ctx.label('training impossible')
                if name == 'DIPLS':
                    return ctx.trivial('training impossible')
            matrices = True
        elif kind == 'use':
            X, Y = ds[op[1]]
            if state is not None and X.shape[1] == ds[state[0]][0].shape[1] and (name != 'CCAFilter' or Y.shape[1] == ds[state[0]][1].shape[1]):
                results(name, alg, X, Y)
        elif kind == 'fail':
            X, Y = ds[op[1]]
            a, b = M(X), M(Y)
            if op[2] == 'no predictors':
                a = None
            elif op[2] == 'no response':
                b = None
            elif op[2] == 'plain':
                if name != 'DIPLS':
                    continue
            elif op[2] == 'columns':
                if name in ('GLSW', 'EPO'):
                    b = M(Y[:, :-1])
                elif name == 'CCAFilter':
                    alg.kcca = opts['kcca'] = spec['kcca'] = Y.shape[1] + 1
                elif name in algs.MULTI:
                    continue
                else:
                    b = M(np.hstack([Y, Y]))
            elif op[2] == 'rows':
                b = M(Y[:-1])
                if name == 'DIPLS':
                    continue
            loud = op[2] == 'rows' or op[2] == 'columns' and name.startswith('YGradient')
            if loud:
                try:
                    r = alg.initialize(a, b)
                except Exception:
                    r = 'raised'
            else:
                r = alg.initialize(a, b)
            require(isinstance(r, str) and r, '%s: training returned %r', where, r)
            require(not alg.is_initialised(), '%s: trained after %r', where, r)
            state, matrices = None, loud or name == 'CCAFilter'
        elif kind == 'set':
            v = value(op[1], op[2])
            setattr(alg, op[1], v)
            opts[op[1]], spec[op[1]] = v, op[2]
            state, matrices = None, False
        elif kind == 'reject':
            try:
                setattr(alg, op[1], op[2])
            except ValueError:
                pass
            else:
                fail('%s: invalid value accepted', where)
        elif kind == 'reset':
            alg.reset()
            state, matrices = None, False
        elif kind == 'init':
            alg.initialize()
            # sets the options back, which resets it
            state, matrices, first = None, False, None
            spec = {}
            for o in default:
                require(o in KEPT or getattr(alg, o) == default[o], '%s: %s is %r, default %r', where, o, getattr(alg, o), default[o])
                require(type(getattr(alg, o)) is type(default[o]), '%s: %s is %r', where, o, getattr(alg, o))
                opts[o] = getattr(alg, o)
        elif kind == 'debug':
            alg.debug = not alg.debug
        elif kind == 'text':
            require(isinstance(alg.to_string(), str) and isinstance(str(alg), str), '%s: not text', where)
        # the state the history must have led to
        require(alg.is_initialised() is (state is not None), '%s: is_initialised %r', where, alg.is_initialised())
        for o, v in opts.items():
            now = getattr(alg, o)
            require(now is v if o in KEPT else now == v, '%s: option %s became %r, set %r', where, o, now, v)
        if state is None:
            check_untrained(name, alg, *ds[0], where)
            if not matrices:
                check_empty(name, alg, where)
        else:
            X, Y = ds[state[0]]
            diff = agree(results(name, alg, X, Y), results(name, f, X, Y))
            require(diff is None, '%s: no longer as trained: %s', where, diff)
    ctx.label('%d trainings' % min(trained, 4))
    if trained < 2:
        ctx.trivial('fewer than two trainings')


# ------------------------------------------------------------------------------- PCA and FastICA
@st.composite
def reuse_cases(draw):
    name = draw(st.sampled_from(['PCA', 'FastICA']))
    data = [draw(gens.recipe((6, 12), (2, 5), ('gauss', 'corr', 'pos', 'big', 'const') if name == 'PCA' else ('gauss', 'corr', 'pos'), None)) for _ in range(2)]
    opts = dict(PCA=[('variance', [0.95, 0.5, 0.8], [0.0, 1.0, -0.1, 1.5]), ('max_columns', [-1, 1, 2], [0, -2]), ('center', [False, True], [])],
                FastICA=[('num_components', [5, 1, 2], [0, -1]), ('whiten', [True, False], []), ('max_iter', [500, 5, 20], [-1]), ('tol', [1e-4, 1e-2], [-1e-4]),
                         ('fun', ['LogCosH', 'Cube', 'Exponential'], []), ('algorithm', ['DEFLATION', 'PARALLEL'], [])])[name]
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        k = draw(st.sampled_from(['transform'] * 3 + ['set'] * 2 + ['reject', 'reset', 'init', 'text']))
        if k == 'transform':
            ops.append([k, draw(st.integers(0, 1))])
        elif k == 'set':
            o = draw(st.sampled_from(opts))
            ops.append([k, o[0], draw(st.sampled_from(o[1]))])
        elif k == 'reject':
            o = draw(st.sampled_from([o for o in opts if o[2]]))
            ops.append([k, o[0], draw(st.sampled_from(o[2]))])
        else:
            ops.append([k])
    ops.append(['transform', draw(st.integers(0, 1))])
    return dict(alg=name, data=data, ops=ops)


FUNS = dict(LogCosH=LogCosH, Cube=Cube, Exponential=Exponential)


def ica_value(o, v):
    return FUNS[v]() if o == 'fun' else getattr(Algorithm, v) if o == 'algorithm' else v


def decomposed(name, t, X):
    try:
        out = [('transform', np.array(arr(t.transform(M(X)), 'transform', finite=False)))]
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        return 'raised ' + type(e).__name__
    if name == 'PCA':
        out += [('scores', arr(t.scores, 'scores', finite=False)), ('loadings', arr(t.loadings, 'loadings', finite=False))]
    else:
        out += [(k, arr(getattr(t, k), k, finite=False)) for k in ('components', 'mixing', 'sources')]
        out.append(('reconstruct', arr(t.reconstruct(), 'reconstruct', finite=False)))
    return out


@sub('C32', 'reuse', lambda: reuse_cases(), 700)
def reuse(case, ctx):
    """A decomposition that is used again equals a new object with the same options; options can be changed at any time;
    an option change or reset makes results of the previous data unavailable."""
    name = case['alg']
    cls = dict(PCA=PCA, FastICA=FastICA)[name]
    ds = [gens.expand(d) for d in case['data']]
    t, spec, count = cls(), {}, 0
    ctx.label(name)
    for step, op in enumerate(case['ops']):
        where = 'step %d %r' % (step, op)
        gone = True
        if op[0] == 'transform':
            f = cls()
            for o, v in spec.items():
                setattr(f, o, ica_value(o, v))
            got, want = decomposed(name, t, ds[op[1]]), decomposed(name, f, ds[op[1]])
            if isinstance(want, str) or isinstance(got, str):
                require(got == want, '%s: %r, a new object: %r', where, got, want)
                ctx.label('impossible')
            else:
                diff = agree(got, want)
                require(diff is None, '%s: differs from a new object: %s', where, diff)
                count += 1
            gone = False
        elif op[0] == 'set':
            setattr(t, op[1], ica_value(op[1], op[2]))
            spec[op[1]] = op[2]
            gone = op[1] not in ('fun', 'algorithm')
        elif op[0] == 'reject':
            before = getattr(t, op[1])
            try:
                setattr(t, op[1], op[2])
            except ValueError:
                pass
            else:
                fail('%s: invalid value accepted', where)
            require(getattr(t, op[1]) == before, '%s: rejected value changed the option', where)
            gone = False
        elif op[0] == 'reset':
            t.reset()
        elif op[0] == 'init':
            t.initialize()
            spec = {}
        else:
            require(isinstance(str(t), str), '%s: not text', where)
            gone = False
        for o, v in spec.items():
            now = getattr(t, o)
            require(isinstance(now, FUNS[v]) if o == 'fun' else now == ica_value(o, v), '%s: option %s became %r, set %r', where, o, now, v)
        if gone:
            if name == 'PCA':
                require(t.loadings is None and t.scores is None, '%s: results left', where)
                require(t.get_coefficients() is None, '%s: coefficients left', where)
            else:
                require(not t.is_initialised() and t.components is None, '%s: results left', where)
                try:
                    t.reconstruct()
                except Exception:
                    pass
                else:
                    fail('%s: reconstructs without data', where)
    ctx.label('%d uses' % min(count, 4))
    if count < 2:
        ctx.trivial('fewer than two uses')
