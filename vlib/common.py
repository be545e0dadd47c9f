"""Shared pieces of the checks that drive dcor's estimators."""
import numpy as np

import data
import dcor
import oracle
from dcor import CompileMode as CM, DistanceCovarianceMethod as DM

# Every way of computing the estimators for random variables, exponent 1.
FAST_WAYS = tuple(
    (m, c) for m in ("auto", "avl", "mergesort")
    for c in ("AUTO", "NO_COMPILE", "COMPILE_CPU"))
# For samples too large for the interpreted loops.
BIG_WAYS = tuple(w for w in FAST_WAYS if w[1] != "NO_COMPILE")
NAIVE_WAYS = (("naive", "AUTO"), ("naive", "NO_COMPILE"))
ALL_WAYS = FAST_WAYS + NAIVE_WAYS
# For random vectors, or exponents other than 1.
VEC_WAYS = (("auto", "AUTO"), ("auto", "NO_COMPILE")) + NAIVE_WAYS

# Relative to (largest distance in x) * (largest distance in y). The largest
# error seen on correct code is recorded in the evidence as err/tol.
TOL = 1e-11


def way_kw(rng, way):
    """Keyword arguments of one way, the method spelled in several forms."""
    m, c = way
    s = int(rng.integers(5))
    method = (getattr(DM, m.upper()), m, m.upper(), m.capitalize(),
              getattr(DM, m.upper()))[s]
    kw = {"method": method, "compile_mode": getattr(CM, c)}
    if m == "auto" and rng.integers(3) == 0:
        del kw["method"]
    if c == "AUTO" and rng.integers(3) == 0:
        del kw["compile_mode"]
    return kw


def exponent_kw(rng, e):
    """Exponent in several numeric types (or omitted when it is one)."""
    s = int(rng.integers(4))
    if e == 1:
        return ({}, {"exponent": 1}, {"exponent": 1.0},
                {"exponent": np.float64(1)})[s]
    return {"exponent": np.float64(e) if s == 0 else e}


def cov_tol(dc, n=None):
    n = n or dc.n
    return TOL * (1 + n / 200.0) * dc.mx * dc.my + np.longdouble(1e-300)


def corr_parts(dc, bias_corrected):
    """(correlation, tolerance), or None if numerically degenerate."""
    cov, vx, vy = dc.get(bias_corrected)
    f = TOL * (1 + dc.n / 200.0)
    # Exactly constant samples: the correlation is zero by definition.
    if dc.mx == 0 or dc.my == 0:
        return np.longdouble(0), np.longdouble(0)
    rx = f * dc.mx ** 2 / abs(vx) if vx else np.inf
    ry = f * dc.my ** 2 / abs(vy) if vy else np.inf
    if not (rx < 1e-4 and ry < 1e-4):
        return None
    r = oracle.corr_from(cov, vx, vy)
    tol = f * dc.mx * dc.my / np.sqrt(abs(vx * vy)) + abs(r) * (rx + ry)
    return r, tol * 2 + np.longdouble(1e-13)


def as_shape(v, how):
    """A random variable as a vector or as a column."""
    return v if how == "1d" else v[:, None]


def dress(ctx, rng, a):
    """The same sample as vector/column and in some memory layout."""
    if a.ndim == 1 and rng.integers(3) == 0:
        a = a[:, None]
    k = rng.choice(data.LAYOUTS) if rng.integers(2) else "C"
    ctx.feat("layout", k)
    return data.layout(a, k)


def dress2(ctx, rng, x, y):
    """Two samples in some layout: sometimes views of one buffer, or the
    same object if they are equal."""
    if rng.integers(5) == 0:
        if x.shape == y.shape and np.array_equal(x, y):
            a = dress(ctx, rng, x)
            ctx.feat("layout", "same object")
            return a, a
        ctx.feat("layout", "views of one buffer")
        return data.shared(rng, x, y)
    return dress(ctx, rng, x), dress(ctx, rng, y)


def sq(ctx, got, want, tol, what, **d):
    """Compare a square root through its square (clipped at zero)."""
    g = ctx.num(got, what)
    if not g >= 0:
        ctx.viol("%s: negative or NaN" % what, got=float(g), **d)
    return ctx.close(g * g, max(want, 0), tol + 4e-16 * abs(want), what, **d)
