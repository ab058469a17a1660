"""Set-ups of the supervised algorithms of the code under test that several properties share."""
import numpy as np
from hypothesis import strategies as st

from wai.ma.algorithm.pls import (CCARegression, DIPLS, KernelPLS, NIPALS, OPLS, PLS1, PRM, SIMPLS, SparsePLS, VCPLS)
from wai.ma.core import PreprocessingType
from wai.ma.core.matrix import factory
from wai.ma.transformation.kernel import LinearKernel, PolyKernel, RBFKernel

from .engine import require
from .ref import ordered

CLASSES = dict(PLS1=PLS1, SIMPLS=SIMPLS, VCPLS=VCPLS, NIPALS=NIPALS, CCARegression=CCARegression, KernelPLS=KernelPLS,
               SparsePLS=SparsePLS, OPLS=OPLS, PRM=PRM, DIPLS=DIPLS)
MULTI = ('NIPALS', 'CCARegression', 'KernelPLS')
KERNELS = dict(linear=LinearKernel, rbf=RBFKernel, poly=PolyKernel, default=RBFKernel)


def M(a):
    return factory.create(ordered(a))


@st.composite
def setups(draw, names=tuple(CLASSES)):
    """An algorithm with options; everything but data and number of components."""
    name = draw(st.sampled_from(names))
    d = dict(alg=name, prep=draw(st.sampled_from(['NONE', 'CENTER', 'STANDARDIZE'])))
    if name == 'VCPLS':
        d['lambda_'] = draw(st.sampled_from([1.0, 0.1, 0.01]))
    elif name == 'SIMPLS':
        d['num_coefficients'] = draw(st.sampled_from([0, 0, -1, 1, 2]))
    elif name in ('NIPALS', 'CCARegression'):
        d['norm_Y_weights'] = draw(st.booleans())
        d['tol'], d['max_iter'] = 1e-14, 2000
    elif name == 'KernelPLS':
        d['kernel'] = draw(st.sampled_from(['linear', 'rbf', 'poly', 'default']))
        d['tol'], d['max_iter'] = 1e-10, 2000
    elif name == 'SparsePLS':
        d['lambda_'] = draw(st.sampled_from([0.0, 0.3, 0.5, 0.8]))
    elif name == 'OPLS':
        d['base'] = draw(st.sampled_from(['default', 'default', 'SIMPLS', 'PLS1', 'NIPALS']))
        d['base_components'] = draw(st.sampled_from([1, 2]))
    elif name == 'PRM':
        d['C'] = draw(st.sampled_from([4.0, 1.0, 20.0]))
    elif name == 'DIPLS':
        d['lambda_'] = draw(st.sampled_from([1.0, 0.1, 10.0]))
        d['mode'] = draw(st.sampled_from(['unsupervised', 'supervised', 'semisupervised']))
    return d


OPTIONS = ('lambda_', 'num_coefficients', 'norm_Y_weights', 'tol', 'max_iter', 'C')


def make(d, A, prep=None):
    """A fresh, untrained instance."""
    alg = CLASSES[d['alg']]()
    alg.num_components = A
    alg.preprocessing_type = getattr(PreprocessingType, prep or d['prep'])
    for k in OPTIONS:
        if k in d:
            setattr(alg, k, d[k])
    if d.get('kernel', 'default') != 'default':
        alg.kernel = KERNELS[d['kernel']]()
    if 'base' in d:
        base = alg.base_PLS if d['base'] == 'default' else CLASSES[d['base']]()
        base.num_components = d['base_components']
        alg.base_PLS = base
    return alg


def parts(d, n):
    """Row blocks of the training data: labelled rows, and the number of rows per domain."""
    if d['alg'] != 'DIPLS':
        return n, None
    if d['mode'] == 'unsupervised':
        return n // 2, (n // 2,)
    if d['mode'] == 'supervised':
        return n, (n // 2,)
    return 2 * (n // 3), (n // 3, 2 * (n // 3))


def labelled(d, n):
    return parts(d, n)[0]


def fit(d, alg, X, Y, handed=None):
    """Trains; returns the message (None: success). Y has a row for every row of X, of which only labelled ones are used.
    The matrices given to the algorithm are appended to `handed`."""
    lab, cuts = parts(d, len(X))
    Y = Y[:lab]
    if d['alg'] != 'DIPLS':
        args, fn = [X, Y], alg.initialize
    elif d['mode'] == 'unsupervised':
        args, fn = [X[:cuts[0]], X[cuts[0]:], Y], alg.initialize_unsupervised
    elif d['mode'] == 'supervised':
        args, fn = [X[:cuts[0]], X[cuts[0]:], Y[:cuts[0]], Y[cuts[0]:]], alg.initialize_supervised
    else:
        args, fn = [X[:cuts[0]], X[cuts[0]:cuts[1]], X[cuts[1]:], Y[:cuts[0]], Y[cuts[0]:]], alg.initialize_semisupervised
    args = [M(a) for a in args]
    if handed is not None:
        handed.extend(args)
    return fn(*args)


def trained(d, A, X, Y, prep=None):
    alg = make(d, A, prep)
    msg = fit(d, alg, X, Y)
    require(msg is None and alg.is_initialised(), '%s does not train: %r', d['alg'], msg)
    return alg
