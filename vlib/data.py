"""Workload generators: samples with the structures that break algorithms."""
import numpy as np

VEC_KINDS = (
    "normal", "uniform", "ties", "two", "three", "sorted", "reversed",
    "heavy", "bigint", "offset", "tiny", "huge", "ramp", "saw", "onehot",
    "mirror", "zeros", "halfconst", "dyadic", "negative", "blocks", "eqsteps",
    "nearsorted", "negzero",
)
# Kinds whose distance variance is far from zero for every n >= 4.
GOOD_KINDS = tuple(k for k in VEC_KINDS if k not in ("onehot",))


# Set by the properties whose oracles follow the units of each sample.
UNITS = False


def rescale(rng, v):
    """Some samples in other units (a power of two: exact)."""
    if UNITS and rng.random() < 0.12:
        v = v * 2.0 ** int(rng.integers(-80, 81))
    return v


def vec(rng, n, kind):
    """A sample of a random variable with the given structure."""
    if kind == "normal":
        v = rng.normal(size=n)
    elif kind == "uniform":
        v = rng.uniform(-3, 5, size=n)
    elif kind == "ties":
        v = rng.integers(-3, 4, size=n).astype(float)
    elif kind == "two":
        v = rng.integers(0, 2, size=n).astype(float)
        if n > 1:
            v[rng.integers(n)] = 0
            v[-1] = 1 - v[0]
    elif kind == "three":
        v = rng.choice([-1.5, 0.25, 4.0], size=n)
    elif kind == "sorted":
        v = np.sort(rng.normal(size=n))
    elif kind == "reversed":
        v = np.sort(rng.normal(size=n))[::-1].copy()
    elif kind == "heavy":
        v = rng.standard_t(2.5, size=n)
    elif kind == "bigint":
        v = rng.integers(-10**6, 10**6, size=n).astype(float)
    elif kind == "offset":
        v = rng.normal(size=n) + 1000.0
    elif kind == "tiny":
        v = rng.normal(size=n) * 1e-7
    elif kind == "huge":
        v = rng.normal(size=n) * 1e7
    elif kind == "ramp":
        v = np.arange(n, dtype=float)
        if rng.integers(2):
            v = v[::-1].copy()
    elif kind == "saw":
        v = (np.arange(n) % max(2, int(rng.integers(2, 9)))).astype(float)
    elif kind == "onehot":
        v = np.zeros(n)
        v[rng.integers(n)] = 1.0
    elif kind == "mirror":
        h = rng.normal(size=(n + 1) // 2)
        v = np.concatenate([h, -h])[:n]
    elif kind == "zeros":
        v = np.where(rng.random(n) < 0.6, 0.0, rng.normal(size=n))
    elif kind == "halfconst":
        v = rng.normal(size=n)
        v[: n // 2] = 0.1
    elif kind == "dyadic":
        v = rng.integers(-64, 65, size=n) / 8.0
    elif kind == "negative":
        v = -rng.exponential(size=n) - 0.5
    elif kind == "blocks":
        v = np.repeat(rng.normal(size=n), 3)[:n]
    elif kind == "eqsteps":
        v = np.tile(np.arange(4.0), n // 4 + 1)[:n]
        v = rng.permutation(v)
    elif kind == "nearsorted":
        v = np.arange(n, dtype=float)
        for _ in range(max(1, n // 8)):
            i = int(rng.integers(n))
            j = int(rng.integers(n))
            v[i], v[j] = v[j], v[i]
    elif kind == "negzero":
        v = rng.choice([0.0, -0.0, 1.0, -1.0], size=n)
    else:
        raise KeyError(kind)
    return rescale(rng, np.ascontiguousarray(v, dtype=float))


def spread(v):
    """Is the sample clearly not constant?"""
    v = np.asarray(v, dtype=float)
    return v.size and np.ptp(v, axis=0).max() > 0


PAIRS = ("indep", "same", "noisy", "neg", "abs", "square", "perm", "affine",
         "step", "samekind")


def pair(rng, n, kx=None, ky=None, rel=None):
    """Two samples of the same size with some relation between them."""
    kx = kx or rng.choice(VEC_KINDS)
    x = vec(rng, n, kx)
    rel = rel or rng.choice(PAIRS)
    if rel == "indep":
        y = vec(rng, n, ky or rng.choice(VEC_KINDS))
    elif rel == "samekind":
        y = vec(rng, n, kx)
    elif rel == "same":
        y = x.copy()
    elif rel == "noisy":
        y = x + (np.std(x) or 1.0) * rng.normal(size=n)
    elif rel == "neg":
        y = -x
    elif rel == "abs":
        y = np.abs(x)
    elif rel == "square":
        y = x * x
    elif rel == "perm":
        y = rng.permutation(x)
    elif rel == "affine":
        y = 3.0 - 2.5 * x
    else:
        y = (x > np.median(x)).astype(float)
    return x, y, "%s/%s" % (kx, rel)


MAT_KINDS = ("normal", "corr", "int", "dups", "constcol", "offset", "sparse",
             "scales", "grid", "heavy")


def mat(rng, n, p, kind=None):
    """A sample of a random vector of p components."""
    kind = kind or rng.choice(MAT_KINDS)
    if kind == "normal":
        v = rng.normal(size=(n, p))
    elif kind == "corr":
        v = rng.normal(size=(n, p)) @ rng.normal(size=(p, p))
    elif kind == "int":
        v = rng.integers(-5, 6, size=(n, p)).astype(float)
    elif kind == "dups":
        v = rng.normal(size=(n, p))[rng.integers(0, n, size=n)]
    elif kind == "constcol":
        v = rng.normal(size=(n, p))
        v[:, 0] = 0.1
        if p == 1:
            v[:, 0] += np.arange(n)
    elif kind == "offset":
        v = rng.normal(size=(n, p)) + rng.uniform(-50, 50, size=p)
    elif kind == "sparse":
        v = np.where(rng.random((n, p)) < 0.5, 0.0, rng.normal(size=(n, p)))
    elif kind == "scales":
        v = rng.normal(size=(n, p)) * 10.0 ** rng.integers(-2, 3, size=p)
    elif kind == "grid":
        v = rng.integers(0, 3, size=(n, p)).astype(float)
    elif kind == "heavy":
        v = rng.standard_t(3, size=(n, p))
    else:
        raise KeyError(kind)
    return rescale(rng, np.ascontiguousarray(v, dtype=float))


LAYOUTS = ("C", "F", "strided", "neg", "ro", "be", "slice", "unaligned")


def layout(a, kind):
    """The same values in another memory layout (poisoned surroundings)."""
    a = np.asarray(a)
    if kind == "C":
        return np.array(a, order="C")
    if kind == "F":
        return np.array(a, order="F")
    if kind == "strided":
        big = np.full(tuple(3 * s + 2 for s in a.shape), 12345.678)
        big = big.astype(a.dtype) if a.dtype != float else big
        v = big[tuple(slice(1, 1 + 3 * s, 3) for s in a.shape)]
        v[...] = a
        return v
    if kind == "neg":
        sl = (slice(None, None, -1),) + (slice(None),) * (a.ndim - 1)
        return np.array(a[sl], order="C")[sl]
    if kind == "ro":
        b = np.array(a, order="C")
        b.flags.writeable = False
        return b
    if kind == "be":
        return a.astype(a.dtype.newbyteorder(">"))
    if kind == "slice":
        big = np.full((a.shape[0] + 7,) + a.shape[1:], -9876.5)
        big = big.astype(a.dtype) if a.dtype != float else big
        v = big[3:3 + a.shape[0]]
        v[...] = a
        return v
    if kind == "unaligned":
        raw = np.zeros(a.nbytes + 1, dtype=np.uint8)
        v = raw[1:1 + a.nbytes].view(a.dtype).reshape(a.shape)
        v[...] = a
        return v
    raise KeyError(kind)


def shared(rng, x, y):
    """The same two samples as views of one buffer."""
    x, y = np.asarray(x), np.asarray(y)
    if x.dtype != y.dtype:
        return x, y
    k = int(rng.integers(3))
    if k == 0 and x.ndim == y.ndim and x.shape[1:] == y.shape[1:]:
        # interleaved instances
        m = max(len(x), len(y))
        buf = np.zeros((2 * m,) + x.shape[1:], dtype=x.dtype)
        a, b = buf[::2][:len(x)], buf[1::2][:len(y)]
    elif k == 1 and len(x) == len(y):
        # columns of one matrix
        p = 1 if x.ndim == 1 else x.shape[1]
        q = 1 if y.ndim == 1 else y.shape[1]
        buf = np.zeros((len(x), p + q), dtype=x.dtype,
                       order="CF"[int(rng.integers(2))])
        a, b = buf[:, :p], buf[:, p:]
        a = a[:, 0] if x.ndim == 1 else a
        b = b[:, 0] if y.ndim == 1 else b
    elif x.ndim == y.ndim and x.shape[1:] == y.shape[1:]:
        # one after the other, the second maybe backwards
        buf = np.zeros((len(x) + len(y),) + x.shape[1:], dtype=x.dtype)
        a, b = buf[:len(x)], buf[len(x):]
        if rng.integers(2):
            b = b[::-1]
    else:
        return x, y
    a[...] = x
    b[...] = y
    return a, b


SIZES = (4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 23, 24,
         25, 31, 32, 33, 34, 47, 48, 49, 63, 64, 65, 66, 95, 96, 97, 127, 128,
         129, 130, 160, 191, 192, 193, 255, 256, 257, 300)


def size(rng, lo=4, hi=300):
    """Small sizes often, powers of two and their neighbours often."""
    u = rng.random()
    if u < 0.35:
        n = int(rng.integers(lo, max(lo + 1, min(hi, 24))))
    elif u < 0.65:
        k = int(rng.integers(2, 9))
        n = 2 ** k + int(rng.integers(-2, 3))
    else:
        n = int(np.exp(rng.uniform(np.log(lo), np.log(hi))))
    return int(min(max(n, lo), hi))
