"""C36 results are a function of the arguments and of nothing else that happened in the process."""
import locale
import os
import sys

import numpy as np
from hypothesis import strategies as st

from wai.ma.algorithm import PCA
from wai.ma.algorithm.ica import FastICA
from wai.ma.core.matrix import factory, helper
from wai.ma.filter import Downsample, Equidistance
from wai.ma.transformation import MultiplicativeScatterCorrection
from wai.ma.transformation.kernel import LinearKernel, PolyKernel, RBFKernel

from .. import algs, clean, gens
from ..algs import M
from ..engine import require, sub
from ..ref import arr
from . import p04_transform, p09_lifecycle
from .p09_lifecycle import agree

TRAINED = {k: [(o, good) for o, good, _ in v] for k, v in p09_lifecycle.OPTIONS.items()}
# options of the parts an object has by default: they have to be its own
TRAINED['KernelPLS'] = TRAINED['KernelPLS'] + [('kernel.gamma', [0.1, 2.0])]
TRAINED['OPLS'] = TRAINED['OPLS'] + [('base_PLS.num_components', [1, 2, 3]), ('base_PLS.preprocessing_type', ['NONE', 'STANDARDIZE'])]
DECOMPOSED = dict(PCA=[('variance', [0.95, 0.5, 0.8]), ('max_columns', [-1, 1, 2]), ('center', [False, True])],
                  FastICA=[('num_components', [5, 1, 2]), ('whiten', [True, False]), ('max_iter', [500, 5, 20]), ('tol', [1e-4, 1e-2]),
                           ('fun', ['LogCosH', 'Cube', 'Exponential']), ('algorithm', ['DEFLATION', 'PARALLEL']), ('fun.alpha', [1.5, 2.0])])
TRANSFORMED = {k: [(o, good) for o, good, _ in v] for k, v in p04_transform.OPTIONS.items()}
FILTERED = dict(Downsample=[('start_index', [0, 1]), ('step', [1, 2])], Equidistance=[('num_samples', [2, 3, 5])],
                MultiplicativeScatterCorrection=[])
KERNELS = dict(LinearKernel=[], RBFKernel=[('gamma', [1.0, 0.1])], PolyKernel=[('degree', [2, 3]), ('coef0', [0.0, 1.0])])
FUNCTIONS = dict(randn=[('seed', [1, 2, 7])], rand=[('seed', [1, 2, 7])], svd=[], eig=[], inverse=[], moments=[])
GROUPS = dict(trained=TRAINED, decomposed=DECOMPOSED, transformed=TRANSFORMED, filtered=FILTERED, kernels=KERNELS, functions=FUNCTIONS)


@st.composite
def processes(draw):
    group = draw(st.sampled_from(['trained'] * 6 + ['transformed'] * 3 + ['decomposed'] * 2 + ['filtered', 'kernels', 'functions']))
    name = draw(st.sampled_from(sorted(GROUPS[group])))
    objects = []
    for k in range(draw(st.integers(2, 4))):
        if k and draw(st.integers(0, 3)) == 0:      # something of another kind
            g = draw(st.sampled_from(sorted(GROUPS)))
            n = draw(st.sampled_from(sorted(GROUPS[g])))
        else:
            g, n = group, name
        objects.append(draw(things(g, n)))
    order = draw(st.lists(st.integers(0, len(objects) - 1), min_size=1, max_size=5))
    return dict(objects=objects, made=draw(st.booleans()), order=order)


@st.composite
def things(draw, g, n):
    opts = [[o, draw(st.sampled_from(vs))] for o, vs in GROUPS[g][n] if draw(st.integers(0, 2)) == 0]
    lo = 8 if n.startswith(('Savitzky', 'YGradient')) else 2
    c = draw(st.sampled_from([lo, lo, lo + 1, lo + 2, lo + 4]))
    if n == 'YGradientGLSW' or n == 'YGradientEPO':
        rows = draw(st.integers(9, 14))
    else:
        rows = draw(st.sampled_from([6, 9, 9, 10, 12, 15]))
    kinds = p04_transform.kinds(n) if g == 'transformed' else ('gauss', 'pos', 'corr')
    q = draw(st.integers(1, 2)) if n in algs.MULTI or n == 'CCAFilter' else c if n in ('GLSW', 'EPO') else 1
    return dict(group=g, name=n, opts=opts, x=draw(gens.recipe(rows, c, kinds, None)), y=draw(gens.recipe(rows, q, ('gauss', 'pos'), None)),
                mode=draw(st.sampled_from(p09_lifecycle.MODES)))


def put(obj, opts, value):
    for path, v in opts:
        part, _, o = path.rpartition('.')
        if part == '':
            setattr(obj, o, value(o, v))
        elif hasattr(getattr(obj, part), o):
            setattr(getattr(obj, part), o, value(o, v))


def create(t):
    g, n, opts = t['group'], t['name'], t['opts']
    if g == 'trained':
        obj = p09_lifecycle.CLASSES[n]()
        put(obj, opts, p09_lifecycle.value)
    elif g == 'decomposed':
        obj = dict(PCA=PCA, FastICA=FastICA)[n]()
        put(obj, opts, p09_lifecycle.ica_value)
    elif g == 'transformed':
        obj = p04_transform.make(n, opts)
    elif g in ('filtered', 'kernels'):
        obj = dict(Downsample=Downsample, Equidistance=lambda: Equidistance(4), LinearKernel=LinearKernel, RBFKernel=RBFKernel,
                   MultiplicativeScatterCorrection=MultiplicativeScatterCorrection, PolyKernel=PolyKernel)[n]()
        for o, v in opts:
            setattr(obj, o, v)
    else:
        obj = None
    return obj


def functions(t, X, Y):
    n, opts = t['name'], dict(t['opts'])
    if n in ('rand', 'randn'):
        return [(n, arr(getattr(factory, n)(len(X), X.shape[1], **opts), n))]
    m = M(X)
    if n == 'svd':
        return [(k, arr(getattr(m, k)(), k)) for k in ('svd_U', 'svd_S', 'svd_V')]
    if n == 'eig':
        s = M(X.T @ X)
        return [(k, arr(getattr(s, k)(), k)) for k in ('get_eigenvalues', 'get_eigenvectors')]
    if n == 'inverse':
        s = M(X.T @ X + np.eye(X.shape[1]))
        return [('inverse', arr(helper.inverse(s), 'inverse')), ('solve', arr(helper.solve(s, M(X.T @ Y)), 'solve'))]
    return [(k, arr(getattr(helper, k)(m), k)) for k in ('row_means', 'column_means', 'row_stdevs', 'column_stdevs')]


def outcome(t, obj, state):
    """Prepares the object on first use; everything observable of it, or how it fails."""
    g, n = t['group'], t['name']
    X, Y = gens.expand(t['x']), gens.expand(t['y'])
    try:
        if g == 'trained':
            if 'trained' not in state:
                state['trained'] = p09_lifecycle.train(n, obj, X, Y, t['mode'])
            return p09_lifecycle.results(n, obj, X, Y) if state['trained'] is None else state['trained']
        if g == 'decomposed':
            return p09_lifecycle.decomposed(n, obj, X)
        if g == 'transformed':
            r = obj.transform(M(X))
            out = [('transform', np.array(arr(r, 'transform', finite=False)))]
            if n in p04_transform.INVERTIBLE:
                out.append(('inverse', arr(obj.inverse_transform(r), 'inverse', finite=False)))
            return out
        if g == 'filtered':
            return [('transform', arr(obj.transform(M(X)), 'transform', finite=False))]
        if g == 'kernels':
            return [('matrix', arr(obj.apply_matrix(M(X)), 'matrix', finite=False))]
        return functions(t, X, Y)
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        return 'raised ' + type(e).__name__


def surroundings():
    """What the process as a whole is configured to."""
    gen = np.random.get_state()
    return {'random generator': (gen[0], gen[1].tobytes()) + tuple(gen[2:]), 'error handling': np.geterr(), 'print options': repr(np.get_printoptions()),
            'directory': os.getcwd(), 'locale': locale.setlocale(locale.LC_ALL), 'recursion limit': sys.getrecursionlimit()}


def alone(t):
    """What the object yields in a process in which nothing else happened."""
    with np.errstate(all='ignore'):
        return outcome(t, create(t), {})


@sub('C36', 'alone', lambda: processes(), 2500)
def process(case, ctx):
    """Whatever other objects exist, were trained and used in the process before, in whatever order: everything observable
    of an object equals what the same calls yield in a process in which nothing else was computed, and using it leaves the
    process as it was."""
    ts = case['objects']
    objs = [create(t) for t in ts] if case['made'] else [None] * len(ts)
    states = [{} for _ in ts]
    want, used = {}, 0
    for step, i in enumerate(list(range(len(ts))) + case['order']):
        t = ts[i]
        if objs[i] is None:
            objs[i] = create(t)
        before = surroundings()
        got = outcome(t, objs[i], states[i])
        after = surroundings()
        for k in before:
            require(before[k] == after[k], 'use %d, of %s: changes the %s of the process', step, t['name'], k)
        if i not in want:
            want[i] = clean.call('vp.props.p12_process', 'alone', t)
        where = 'use %d, of %s (object %d)' % (step, t['name'], i)
        if isinstance(got, str) or isinstance(want[i], str):
            require(isinstance(got, str) and isinstance(want[i], str) and got == want[i], '%s: %r, on its own: %r', where, got, want[i])
            ctx.label('impossible')
            continue
        diff = agree(got, want[i])
        require(diff is None, '%s: differs from the same in a clean process: %s', where, diff)
        used += 1
    for t in ts:
        ctx.label(t['name'])
    if used < 2:
        ctx.trivial('fewer than two possible uses')
