"""Building blocks shared by the checks: generated data, problems, solvers."""
import json

import numpy as np

from harness import core

core.import_hypothesis()
from hypothesis import strategies as st  # noqa: E402

# --------------------------------------------------------------------------
#  data
# --------------------------------------------------------------------------
KINDS = ['const', 'step', 'ints', 'rand', 'smooth', 'spike', 'saw']


def data_spec(kinds=None):
    return st.fixed_dictionaries({'kind': st.sampled_from(kinds or KINDS),
                                  'seed': st.integers(0, 10 ** 6)})


def expand(spec, shape, lo=-1.0, hi=1.0):
    """A pure function of the drawn spec: an array of `shape` within [lo, hi]."""
    rng = np.random.default_rng(spec['seed'])
    kind = spec['kind']
    shape = tuple(shape)
    comp, cells = shape[0], shape[1:]
    out = np.empty(shape)
    for m in range(comp):
        if kind == 'const':
            f = np.full(cells, rng.uniform())
        elif kind == 'step':
            f = np.full(cells, rng.uniform())
            for ax, n in enumerate(cells):
                k = rng.integers(0, n + 1)
                sl = [slice(None)] * len(cells)
                sl[ax] = slice(k, None)
                f[tuple(sl)] += rng.uniform(-1, 1)
        elif kind == 'ints':
            f = rng.integers(0, 4, cells) / 3.0
        elif kind == 'rand':
            f = rng.uniform(size=cells)
        elif kind == 'smooth':
            f = np.zeros(cells)
            for ax, n in enumerate(cells):
                x = (np.arange(n) + 0.5) / n
                k = rng.integers(1, 3)
                g = np.sin(2 * np.pi * (k * x + rng.uniform()))
                sh = [1] * len(cells)
                sh[ax] = n
                f = f + rng.uniform(0.3, 1) * g.reshape(sh)
        elif kind == 'spike':
            f = np.full(cells, rng.uniform(0, 0.2))
            idx = tuple(rng.integers(0, n) for n in cells)
            f[idx] = 1.0
        elif kind == 'saw':
            f = np.zeros(cells)
            for ax, n in enumerate(cells):
                sh = [1] * len(cells)
                sh[ax] = n
                f = f + ((np.arange(n) * int(rng.integers(1, 4))) % n).reshape(sh) * rng.choice([-1.0, 1.0])
        else:
            raise ValueError(kind)
        out[m] = f
    # normalise into [0, 1] only where necessary, per component
    for m in range(comp):
        a, b = out[m].min(), out[m].max()
        if a < 0 or b > 1:
            out[m] = (out[m] - a) / (b - a) if b > a else 0.5
    return lo + (hi - lo) * out


def close(a, b, rtol=1e-12, atol=0.0, scale=None):
    """|a-b| <= atol + rtol*scale everywhere; NaN only where both are NaN."""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if scale is None:
        fin = np.abs(b[np.isfinite(b)])
        scale = fin.max() if fin.size else 0.0
    d = np.abs(a - b)
    ok = (d <= atol + rtol * scale) | (np.isnan(a) & np.isnan(b)) | (a == b)
    return bool(ok.all())


def worst(a, b):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return 'shapes %s and %s' % (a.shape, b.shape)
    d = np.abs(a - b)
    d = np.where(np.isnan(d), np.inf, d)
    i = np.unravel_index(np.argmax(d), d.shape)
    return 'largest difference %.3g at %s: %r vs %r' % (d[i], tuple(int(k) for k in i), float(a[i]), float(b[i]))


def demand_close(a, b, what, rtol=1e-12, atol=0.0, scale=None):
    if not close(a, b, rtol, atol, scale):
        raise core.Violation('%s: %s' % (what, worst(a, b)))


def floats(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)


# --------------------------------------------------------------------------
#  geometry helpers
# --------------------------------------------------------------------------
NAMES = 'xyz'


def make_domain(lower, upper, cells):
    """The domain, built in one of the documented ways (which one depends on the numbers of cells, so that a case replays)."""
    from clawpack import pyclaw
    lower, upper, cells = [float(a) for a in lower], [float(b) for b in upper], [int(n) for n in cells]
    way = sum(cells) % 5
    if way == 1:
        return pyclaw.Domain(lower, upper, cells)
    names = ['eta', 'x', 'y'] if way == 2 else ['y', 'x', 'q'] if way == 3 else NAMES
    dims = [pyclaw.Dimension(a, b, n, name=names[i]) for i, (a, b, n) in enumerate(zip(lower, upper, cells))]
    if way == 4:
        return pyclaw.Domain(pyclaw.Patch(dims) if sum(cells) % 2 else [pyclaw.Patch(dims)])
    return pyclaw.Domain(dims)
