"""Numeric helpers shared by the oracles (numpy only; never calls the code under test)."""
import zlib

import numpy as np

from .engine import fail

EPS = np.finfo(np.float64).eps


def ordered(a):
    """The array as floats - every third one laid out by columns, as the matrices that transpose() returns are."""
    a = np.array(a, dtype=float)
    return np.asfortranarray(a) if a.ndim == 2 and zlib.crc32(a.tobytes()) % 3 == 0 else np.ascontiguousarray(a) if a.ndim == 2 else a


def rel(a, b):
    """Largest deviation relative to the largest magnitude of the reference."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return np.inf
    if a.size == 0:
        return 0.0
    d = np.abs(a - b)
    if not np.all(np.isfinite(d)):
        return np.inf
    m = np.max(np.abs(b))
    return float(np.max(d) / m) if m > 0 else float(np.max(d))


def arr(m, what, shape=None, finite=True):
    """The array of a Matrix the code under test returned, with its basic contract checked."""
    d = getattr(m, 'data', None)
    if not isinstance(d, np.ndarray):
        fail('%s: not a matrix: %r' % (what, type(m)))
    if d.ndim != 2:
        fail('%s: not 2-dimensional: %r' % (what, d.shape))
    if not np.isrealobj(d):
        fail('%s: complex result' % what)
    if shape is not None and tuple(d.shape) != tuple(shape):
        fail('%s: shape %r, expected %r' % (what, d.shape, tuple(shape)))
    if finite and not np.all(np.isfinite(d)):
        fail('%s: non-finite values in the result' % what)
    return d


def close(got, want, what, tol=1e-9, scale=None):
    """got (array) agrees with want up to tol relative to scale (default: max |want|)."""
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        fail('%s: shape %r, expected %r' % (what, got.shape, want.shape))
    if got.size == 0:
        return
    if not np.all(np.isfinite(got)):
        fail('%s: non-finite result\n got  %s\n want %s' % (what, short(got), short(want)))
    s = float(np.max(np.abs(want))) if scale is None else float(scale)
    dev = float(np.max(np.abs(got - want)))
    if dev > tol * s and dev > 1e-300:
        i = np.unravel_index(np.argmax(np.abs(got - want)), got.shape)
        fail('%s: deviation %.3g at %r exceeds %.3g (scale %.3g)\n got  %s\n want %s'
             % (what, dev, tuple(map(int, i)), tol * s, s, short(got), short(want)))


def same(got, want, what):
    """Bitwise-equal values (NaN equals NaN)."""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        fail('%s: shape %r, expected %r' % (what, got.shape, want.shape))
    if not np.array_equal(got, want, equal_nan=True):
        fail('%s:\n got  %s\n want %s' % (what, short(got), short(want)))


def short(a):
    s = np.array2string(np.asarray(a), precision=8, threshold=60, separator=', ')
    return ' '.join(s.split())[:900]


def mx(a):
    return float(np.max(np.abs(a))) if np.size(a) else 0.0


def cond(a):
    s = np.linalg.svd(a, compute_uv=False)
    return float(s[0] / s[-1]) if s.size and s[-1] > 0 else np.inf
