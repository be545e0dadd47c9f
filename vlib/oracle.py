"""Reference values: the textbook formulas, in extended precision.

Nothing here imports dcor.
"""
from fractions import Fraction

import numpy as np

LD = np.longdouble


def ld2(x):
    x = np.asarray(x)
    if x.ndim == 1:
        x = x[:, None]
    return x.astype(LD)


def dist(x, y=None, exponent=1):
    """d(i, j) = |x_i - y_j| ** exponent, Euclidean norm."""
    x = ld2(x)
    y = x if y is None else ld2(y)
    if x.shape[1] == 1:
        d = np.abs(x[:, 0][:, None] - y[:, 0][None, :])
        if exponent != 1:
            d = d ** LD(exponent)
        return d
    # Scaled, so that the square neither overflows nor underflows.
    s = LD(0)
    for k in range(x.shape[1]):
        d = x[:, k][:, None] - y[:, k][None, :]
        s = s + d * d
    d = np.sqrt(s)
    if exponent != 1:
        d = d ** LD(exponent)
    return d


def dcenter(a):
    a = np.asarray(a, dtype=LD)
    r = a.mean(axis=1, keepdims=True)
    c = a.mean(axis=0, keepdims=True)
    return a - r - c + a.mean()


def ucenter(a):
    a = np.asarray(a, dtype=LD)
    n = LD(a.shape[0])
    r = a.sum(axis=1, keepdims=True) / (n - 2)
    c = a.sum(axis=0, keepdims=True) / (n - 2)
    out = a - r - c + a.sum() / ((n - 1) * (n - 2))
    np.fill_diagonal(out, 0)
    return out


def mprod(a, b):
    return (a * b).sum() / LD(a.size)


def uprod(a, b):
    n = LD(a.shape[0])
    return (a * b).sum() / (n * (n - 3))


class DC:
    """Distance covariance quantities of a pair of samples."""

    def __init__(self, x, y, exponent=1, unbiased=True):
        self.n = np.shape(x)[0]
        a, b = dist(x, exponent=exponent), dist(y, exponent=exponent)
        self.mx, self.my = a.max(), b.max()
        ca, cb = dcenter(a), dcenter(b)
        self.cov = mprod(ca, cb)
        self.vx = mprod(ca, ca)
        self.vy = mprod(cb, cb)
        if unbiased and self.n > 3:
            ua, ub = ucenter(a), ucenter(b)
            self.ucov = uprod(ua, ub)
            self.uvx = uprod(ua, ua)
            self.uvy = uprod(ub, ub)

    def get(self, bias_corrected):
        return ((self.ucov, self.uvx, self.uvy) if bias_corrected
                else (self.cov, self.vx, self.vy))


def corr_from(cov, vx, vy):
    den = np.sqrt(abs(vx * vy))
    return LD(0) if den == 0 else cov / den


def energy(x, y, exponent=1, stat="V", average=None):
    xx, yy, xy = (dist(x, exponent=exponent), dist(y, exponent=exponent),
                  dist(x, y, exponent=exponent))
    return energy_from(xx, yy, xy, stat, average)


def energy_from(xx, yy, xy, stat="V", average=None):
    av = average or (lambda v: v.sum() / LD(v.size))
    if stat == "U":
        xx = xx[np.triu_indices(len(xx), 1)]
        yy = yy[np.triu_indices(len(yy), 1)]
    return 2 * av(xy) - av(xx) - av(yy)


# ---- exact arithmetic (integers and fractions, one component, exponent 1)

def exact_terms(x, y):
    n = len(x)
    a = [[abs(u - v) for v in x] for u in x]
    b = [[abs(u - v) for v in y] for u in y]
    return n, a, b


def exact_dcov(x, y, unbiased=False):
    n, a, b = exact_terms(x, y)
    ar = [sum(r) for r in a]
    br = [sum(r) for r in b]
    at, bt = sum(ar), sum(br)
    ab = sum(p * q for ra, rb in zip(a, b) for p, q in zip(ra, rb))
    rr = sum(p * q for p, q in zip(ar, br))
    if unbiased:
        return (Fraction(ab, 1) / (n * (n - 3))
                - 2 * Fraction(rr, 1) / (n * (n - 2) * (n - 3))
                + Fraction(at * bt, 1) / (n * (n - 1) * (n - 2) * (n - 3)))
    return (Fraction(ab, 1) / n**2 - 2 * Fraction(rr, 1) / n**3
            + Fraction(at * bt, 1) / n**4)


def weighted_dcov(xv, yv, counts, unbiased=False):
    """Distance covariance of data with few distinct values.

    ``counts[i, j]`` samples have the value (xv[i], yv[j]).
    """
    a, b = dist(np.asarray(xv)), dist(np.asarray(yv))
    w = np.asarray(counts).astype(LD)
    n = w.sum()
    wx, wy = w.sum(axis=1), w.sum(axis=0)
    ar, br = a @ wx, b @ wy
    at, bt = ar @ wx, br @ wy
    ab = LD(0)
    for i in range(len(xv)):
        for k in range(len(xv)):
            ab += a[i, k] * (w[i] @ b @ w[k])
    rr = ar @ w @ br
    if unbiased:
        return (ab / (n * (n - 3)) - 2 * rr / (n * (n - 2) * (n - 3))
                + at * bt / (n * (n - 1) * (n - 2) * (n - 3)))
    return ab / n**2 - 2 * rr / n**3 + at * bt / n**4


# ---- large samples, without n x n matrices

def cross_term(x, y):
    """Sum over i, j of |x_i - x_j| |y_i - y_j|, by halves: O(n log^2 n)."""
    o = np.argsort(x, kind="stable")
    x, y = x[o], y[o]
    total, w, n = LD(0), 64, len(x)
    for i in range(0, n, w):
        u, v = x[i:i + w], y[i:i + w]
        total += (np.abs(u[:, None] - u) * np.abs(v[:, None] - v)).sum()
    # pairs with one element in each of two neighbouring blocks
    while w < n:
        for i in range(0, n - w, 2 * w):
            xl, yl = x[i:i + w], y[i:i + w]
            xr, yr = x[i + w:i + 2 * w], y[i + w:i + 2 * w]
            o = np.argsort(yl, kind="stable")
            xl, yl = xl[o], yl[o]
            k = np.searchsorted(yl, yr, side="right")

            def below(v):
                c = np.concatenate(([LD(0)], np.cumsum(v)))
                return 2 * c[k] - c[-1]
            m = (2 * k - len(xl)).astype(LD)
            total += 2 * (xr * (yr * m - below(yl))
                          - (yr * below(xl) - below(xl * yl))).sum()
        w *= 2
    return total


def row_sums(x):
    """Sum over j of |x_i - x_j|, for each i."""
    o = np.argsort(x, kind="stable")
    s = x[o]
    n = len(x)
    c = np.cumsum(s)
    i = np.arange(n).astype(LD)
    out = np.empty(n, LD)
    out[o] = s * (2 * i + 2 - n) - 2 * c + c[-1]
    return out


class FastDC(DC):
    """The same quantities of two large random variables, exponent one."""

    def __init__(self, x, y):
        x, y = (np.asarray(v).astype(LD).ravel() for v in (x, y))
        self.n = len(x)
        self.mx, self.my = x.max() - x.min(), y.max() - y.min()
        x, y = x - np.median(x), y - np.median(y)
        a, b = row_sums(x), row_sums(y)
        n = LD(self.n)

        def both(ab, r, s):
            t, u, rr = r.sum(), s.sum(), (r * s).sum()
            return (ab / n**2 - 2 * rr / n**3 + t * u / n**4,
                    ab / (n * (n - 3)) - 2 * rr / (n * (n - 2) * (n - 3))
                    + t * u / (n * (n - 1) * (n - 2) * (n - 3)))
        self.cov, self.ucov = both(cross_term(x, y), a, b)
        for v, r, nm in ((x, a, "vx"), (y, b, "vy")):
            sq = 2 * (n * (v * v).sum() - v.sum() ** 2)
            g, u = both(sq, r, r)
            setattr(self, nm, g)
            setattr(self, "u" + nm, u)


class LatticeDC(DC):
    """The same quantities of a large sample with few distinct points.

    xv, yv: the distinct points; i, j: which of them each observation is.
    """

    def __init__(self, xv, yv, i, j, exponent=1):
        self.n = len(i)
        a, b = dist(xv, exponent=exponent), dist(yv, exponent=exponent)
        w = np.bincount(i * len(b) + j, minlength=len(a) * len(b))
        w = w.reshape(len(a), len(b))
        wx, wy = np.diag(w.sum(axis=1)), np.diag(w.sum(axis=0))
        self.mx, self.my = a.max(), b.max()
        for nm, m, c, k in (("cov", a, b, w), ("vx", a, a, wx),
                            ("vy", b, b, wy)):
            setattr(self, nm, weighted(m, c, k, False))
            setattr(self, "u" + nm, weighted(m, c, k, True))


def weighted(a, b, w, unbiased):
    w = w.astype(LD)
    n = w.sum()
    ar, br = a @ w.sum(axis=1), b @ w.sum(axis=0)
    at, bt = ar @ w.sum(axis=1), br @ w.sum(axis=0)
    ab = (a * (w @ b @ w.T)).sum()
    rr = ar @ w @ br
    if unbiased:
        return (ab / (n * (n - 3)) - 2 * rr / (n * (n - 2) * (n - 3))
                + at * bt / (n * (n - 1) * (n - 2) * (n - 3)))
    return ab / n**2 - 2 * rr / n**3 + at * bt / n**4


def lattice(rng, n, p, q, a=40, b=30, dep=0.5, far=0.0, last=True):
    """(xv, yv, i, j): n observations of few distinct points.

    The last observation is unlike all the others, so that losing the tail
    of the sample is seen.
    """
    xv = rng.normal(size=(a, p)) + far
    yv = rng.normal(size=(b, q)) + far
    i = rng.integers(0, a - 1, size=n)
    j = np.where(rng.random(n) < dep, i % (b - 1),
                 rng.integers(0, b - 1, size=n))
    if last:
        xv[-1] += 10
        yv[-1] += 10
        i[-1], j[-1] = a - 1, b - 1
    return xv, yv, i, j
