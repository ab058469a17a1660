"""
Generators.  A *matrix spec* is a small JSON value: either {"m": [[...]]} (written out) or a
recipe {"r", "c", "kind", "seed", "scale", "off"} which expands to a matrix as a pure function
of those integers.  Hypothesis draws (and shrinks) the specs.
"""
import numpy as np
from hypothesis import strategies as st

KINDS = ('gauss', 'int', 'pos', 'spec', 'corr', 'sparse', 'const', 'dup', 'big', 'mirror', 'flat', 'late', 'thin')


def expand(spec):
    """The matrix (float64, 2D, owned) a spec stands for."""
    if 'm' in spec:
        return np.array(spec['m'], dtype=np.float64).reshape(len(spec['m']), -1)
    r, c, kind = spec['r'], spec['c'], spec['kind']
    rng = np.random.Generator(np.random.PCG64(spec['seed'] + 1000003 * KINDS.index(kind)))
    if kind == 'gauss':
        a = rng.standard_normal((r, c))
    elif kind == 'int':
        a = rng.integers(-9, 10, (r, c)).astype(float)
    elif kind == 'pos':
        a = rng.uniform(0.25, 4.0, (r, c))
    elif kind == 'spec':
        x = np.linspace(0, 1, c)
        a = np.full((r, c), 0.3)
        for _ in range(4):
            mu, w = rng.uniform(0, 1), rng.uniform(0.05, 0.4)
            a += rng.uniform(0.2, 2.0, (r, 1)) * np.exp(-((x - mu) / w) ** 2)
        a += 0.05 * rng.standard_normal((r, c))
    elif kind == 'corr':
        k = max(1, min(r, c) // 2)
        a = rng.standard_normal((r, k)) @ rng.standard_normal((k, c)) + 0.3 * rng.standard_normal((r, c))
    elif kind == 'sparse':
        a = rng.standard_normal((r, c)) * (rng.uniform(0, 1, (r, c)) < 0.4)
    elif kind == 'const':
        a = rng.standard_normal((r, c))
        for j in range(c):
            if rng.uniform() < 0.4:
                a[:, j] = float(rng.integers(-4, 5)) / 2
    elif kind == 'dup':
        a = rng.integers(-3, 4, (r, c)).astype(float)
        if r > 1:
            a[rng.integers(r)] = a[rng.integers(r)]
        if c > 1:
            a[:, rng.integers(c)] = a[:, rng.integers(c)]
    elif kind == 'big':
        a = rng.standard_normal((r, c)) * 10.0 ** rng.integers(-2, 3, (1, c)) + rng.integers(-50, 51, (1, c))
    elif kind == 'mirror':      # whole numbers, every row with its negative: all means exactly zero
        h = rng.integers(-9, 10, (r // 2, c)).astype(float)
        a = rng.permutation(np.vstack([h, -h, np.zeros((r % 2, c))]), axis=0)
    elif kind == 'flat':        # every column constant
        a = np.repeat(rng.integers(-9, 10, (1, c)) / 10.0, r, axis=0)
    elif kind == 'late':        # some columns constant but for the last rows
        a = rng.standard_normal((r, c))
        for j in range(c):
            if rng.uniform() < 0.5:
                a[:r - int(rng.integers(1, 3)), j] = float(rng.integers(-4, 5)) / 2
    elif kind == 'thin':        # one or two strong directions, little else
        k = int(rng.integers(1, 3))
        a = rng.standard_normal((r, k)) @ rng.standard_normal((k, c)) + 10.0 ** -rng.integers(1, 4) * rng.standard_normal((r, c))
    else:
        raise KeyError(kind)
    if spec.get('neg'):
        a = -a
    e = spec.get('scale', 0)
    if e:
        a = a * 10.0 ** e
    if spec.get('off'):
        a = a + float(spec['off'])
    return np.ascontiguousarray(a, dtype=np.float64)


HUGE = (50, 64, 65, 100, 101, 128, 130)


def dim(lo, hi, big=None, huge=()):
    """A size in lo..hi, about every fifth time one in hi+1..big (three times hi unless said otherwise), and about
    every thirtieth time one of huge, if given."""
    big = 3 * hi if big is None else big
    usual, large = list(range(lo, hi + 1)), list(range(hi + 1, big + 1))
    all_ = usual * max(1, round(4 * len(large) / len(usual))) + large
    if huge:
        all_ = all_ * max(1, round(29 * len(huge) / len(all_))) + list(huge)
    return st.sampled_from(all_)


def deep(most=12):
    """Sizes (rows, columns, components) at which many components are well defined."""
    return st.integers(5, most).flatmap(lambda a: st.tuples(st.integers(3 * a, 60), st.integers(a + 2, 30), st.just(a)))


def seldom(n=12):
    return st.integers(0, n - 1).map(lambda k: k == n - 1)


def seeds():
    return st.integers(0, 2 ** 16 - 1)


@st.composite
def recipe(draw, rows=(1, 8), cols=(1, 8), kinds=KINDS, scales=(-2, 2), offs=False):
    """A recipe; rows/cols are (lo, hi) or a number."""
    r = draw(dim(*rows, huge=HUGE)) if isinstance(rows, tuple) else rows
    c = draw(dim(*cols, huge=HUGE)) if isinstance(cols, tuple) else cols
    d = dict(r=r, c=c, kind=draw(st.sampled_from(kinds)), seed=draw(seeds()))
    if d['kind'] in ('pos', 'spec') and 'gauss' in kinds and draw(st.integers(0, 2)) == 0:
        d['neg'] = True
    if scales:
        d['scale'] = draw(st.sampled_from([0, 0, 0] + list(range(scales[0], scales[1] + 1))))
    if offs:
        d['off'] = draw(st.sampled_from([0, 0, 3, -7, 100]))
    return d


SMALL = [0.0, 1.0, -1.0, 2.0, 0.5, -3.0, 7.0, 0.1, -0.25, 1e-3, 1e3]


def values(special=False):
    s = st.one_of(st.sampled_from(SMALL), st.integers(-20, 20).map(float),
                  st.floats(-1e6, 1e6, allow_nan=False).map(lambda x: float('%.6g' % x)))
    if special:
        s = st.one_of(s, st.sampled_from([float('inf'), float('-inf'), 1e300, -1e300, 5e-324, -0.0]))
    return s


@st.composite
def explicit(draw, rows=(1, 5), cols=(1, 5), elems=None):
    r = draw(dim(*rows)) if isinstance(rows, tuple) else rows
    c = draw(dim(*cols)) if isinstance(cols, tuple) else cols
    elems = values() if elems is None else elems
    return dict(m=draw(st.lists(st.lists(elems, min_size=c, max_size=c), min_size=r, max_size=r)))


@st.composite
def anymat(draw, rows=(1, 6), cols=(1, 6)):
    """Written-out or recipe matrices of moderate size (for exact/elementwise operations)."""
    r = draw(dim(*rows, huge=HUGE)) if isinstance(rows, tuple) else rows
    c = draw(dim(*cols, huge=HUGE)) if isinstance(cols, tuple) else cols
    if r * c <= 100 and draw(st.booleans()):
        return draw(explicit(r, c))
    return draw(recipe(r, c))
