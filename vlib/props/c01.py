"""C01: the estimators equal the definition (distance matrices, centred)."""
import numpy as np

import data
import dcor
import oracle
from common import (ALL_WAYS, BIG_WAYS, FAST_WAYS, VEC_WAYS, as_shape, cov_tol, dress, dress2,
                    exponent_kw, sq, way_kw)

data.UNITS = True


def verify(ctx, rng, x, y, e, ways, dc, desc, xs=None):
    tol = cov_tol(dc)
    for way in ways:
        xa, ya = dress2(ctx, rng, x, y)
        if xs == "same":
            ya = xa
        kw = {**way_kw(rng, way), **exponent_kw(rng, e)}
        d = {"way": way, "n": dc.n, "exponent": e, "desc": desc,
             "x": x, "y": y}
        ctx.feat("way", way)
        f = ctx.call("distance_covariance_sqr", dcor.distance_covariance_sqr,
                     xa, ya, **kw)
        ctx.close(f, dc.cov, tol,
                  "distance_covariance_sqr differs from its definition", **d)
        f = ctx.call("distance_covariance", dcor.distance_covariance, xa, ya,
                     **kw)
        sq(ctx, f, dc.cov, tol,
           "distance_covariance differs from its definition", **d)
        if dc.n > 3:
            f = ctx.call("u_distance_covariance_sqr",
                         dcor.u_distance_covariance_sqr, xa, ya, **kw)
            # The unbiased weights are larger for small samples.
            ctx.close(f, dc.ucov, tol * 20,
                      "u_distance_covariance_sqr differs from its definition",
                      **d)
    if dc.mx > 0 and dc.my > 0:
        ctx.nontrivial(x, y, e)


def k_variables(ctx, rng, n, kx, rel, ways="all", ky=None):
    x, y, desc = data.pair(rng, n, kx, ky, rel)
    dc = oracle.DC(x, y)
    ctx.feat("n", n)
    ctx.feat("structure", desc)
    w = ALL_WAYS if ways == "all" else FAST_WAYS
    verify(ctx, rng, x, y, 1, w, dc, desc,
           "same" if rel == "same" and rng.integers(2) else None)
    ctx.sample({"n": n, "structure": desc, "dcov_sqr": float(dc.cov)})


def k_vectors(ctx, rng, n, p, q, e, kx=None, ky=None, same=False):
    x = data.mat(rng, n, p, kx) if p else data.vec(rng, n, "normal")
    y = data.mat(rng, n, q, ky) if q else data.vec(rng, n, "ties")
    if same:
        y = x
    dc = oracle.DC(x, y, exponent=e)
    ctx.feat("exponent", float(e))
    ctx.feat("dims", (p, q))
    ctx.feat("n", n)
    one = (p <= 1 and q <= 1 and e == 1 and n > 3)
    verify(ctx, rng, x, y, e, ALL_WAYS if one else VEC_WAYS, dc,
           "matrix", "same" if same else None)


def k_large(ctx, rng, n, kx, ky):
    """Large samples: only the fast ways, reference in blocks."""
    x, y = data.vec(rng, n, kx), data.vec(rng, n, ky)
    y = y + 0.3 * (np.std(y) / (np.std(x) or 1)) * x
    cov, ucov, mx, my = blocked(x, y)
    tol = 1e-11 * (1 + n / 200.0) * mx * my
    for way in FAST_WAYS:
        if way[1] == "NO_COMPILE" and n > 3000:
            continue
        kw = way_kw(rng, way)
        d = {"way": way, "n": n, "kinds": (kx, ky)}
        f = ctx.call("distance_covariance_sqr", dcor.distance_covariance_sqr,
                     x, y, **kw)
        ctx.close(f, cov, tol, "distance_covariance_sqr differs from its "
                  "definition (large sample)", **d)
        f = ctx.call("u_distance_covariance_sqr",
                     dcor.u_distance_covariance_sqr, x, y, **kw)
        ctx.close(f, ucov, tol, "u_distance_covariance_sqr differs from its "
                  "definition (large sample)", **d)
    ctx.feat("n", n)
    ctx.nontrivial(x, y, "large")


def k_huge(ctx, rng, n, kx, ky):
    """Larger still: compiled ways, reference of n log n."""
    x, y = data.vec(rng, n, kx), data.vec(rng, n, ky)
    y = y + 0.3 * (np.std(y) / (np.std(x) or 1)) * x
    verify(ctx, rng, x, y, 1, BIG_WAYS, oracle.FastDC(x, y), (kx, ky))
    ctx.feat("n", n)


def k_lattice(ctx, rng, n, p, q, e):
    """Random vectors, large sample with few distinct points."""
    xv, yv, i, j = oracle.lattice(rng, n, p, q)
    ctx.feat("n", n)
    verify(ctx, rng, xv[i], yv[j], e,
           (("auto", "AUTO"), ("naive", "NO_COMPILE")),
           oracle.LatticeDC(xv, yv, i, j, exponent=e), "lattice")


def blocked(x, y):
    """Definition for large samples, without n x n matrices."""
    n = len(x)
    ab = np.longdouble(0)
    ra, rb = np.zeros(n, np.longdouble), np.zeros(n, np.longdouble)
    for i in range(0, n, 256):
        a = np.abs(x[i:i + 256, None] - x[None, :])
        b = np.abs(y[i:i + 256, None] - y[None, :])
        ra[i:i + 256] = a.sum(axis=1)
        rb[i:i + 256] = b.sum(axis=1)
        ab += np.einsum("ij,ij->i", a, b).sum()
    ta, tb, rr = ra.sum(), rb.sum(), (ra * rb).sum()
    n = np.longdouble(n)
    cov = ab / n**2 - 2 * rr / n**3 + ta * tb / n**4
    ucov = (ab / (n * (n - 3)) - 2 * rr / (n * (n - 2) * (n - 3))
            + ta * tb / (n * (n - 1) * (n - 2) * (n - 3)))
    return cov, ucov, np.ptp(x), np.ptp(y)


def k_smallest(ctx, rng, n, p, e):
    """Sample sizes below the minimum of the fast algorithms (biased only)."""
    x = data.mat(rng, n, p, "normal") if p else rng.normal(size=n)
    y = data.mat(rng, n, 1, "normal") if p else rng.normal(size=n)
    dc = oracle.DC(x, y, exponent=e)
    verify(ctx, rng, x, y, e, VEC_WAYS, dc, "smallest")


KINDS = {"variables": k_variables, "vectors": k_vectors, "large": k_large,
         "huge": k_huge, "lattice": k_lattice,
         "smallest": k_smallest}

EXPONENTS = (1, 0.5, 1.5, 0.1, 1.9, 1.25, 0.01, 1.99, 2, 0.75,
             1.001, 0.996, 1 + 1e-7)


def systematic(ctx):
    for n, p, q in ((1500, 1, 1), (2100, 2, 2), (60, 130, 300)):
        yield "vectors", {"n": n, "p": p, "q": q, "e": 1}
        yield "vectors", {"n": n, "p": p, "q": q, "e": 1.5}
    for n in (20000, 46400, 66000, 100000, 262200):
        yield "huge", {"n": n, "kx": "normal", "ky": "heavy"}
        yield "huge", {"n": n, "kx": "ties", "ky": "normal"}
    for n, p, q, e in ((4200, 2, 2, 1), (5200, 1, 3, 1.5), (4100, 1, 1, 1)):
        yield "lattice", {"n": n, "p": p, "q": q, "e": e}
    rels = data.PAIRS
    for i, n in enumerate(range(4, 71)):
        for j in range(3 if not ctx.thorough else 10):
            k = data.VEC_KINDS[(7 * i + 5 * j) % len(data.VEC_KINDS)]
            yield "variables", {"n": n, "kx": k,
                                "rel": rels[(i + 3 * j) % len(rels)]}
    for n in (127, 128, 129, 255, 256, 257):
        yield "variables", {"n": n, "kx": "normal", "rel": "noisy"}
        yield "variables", {"n": n, "kx": "ties", "rel": "indep"}
    for k in data.VEC_KINDS:
        for r in rels:
            yield "variables", {"n": 11, "kx": k, "rel": r, "ways": "all"}
    for n in (1, 2, 3):
        for p in (0, 1, 2, 5):
            for e in (1, 0.5):
                yield "smallest", {"n": n, "p": p, "e": e}
    for e in EXPONENTS:
        for p, q in ((0, 0), (1, 1), (1, 3), (2, 1), (2, 2), (5, 3), (17, 40)):
            yield "vectors", {"n": 4 + (p * 7 + q) % 20, "p": p, "q": q,
                              "e": e}
    for kx in data.MAT_KINDS:
        for n in (4, 5, 9, 30):
            yield "vectors", {"n": n, "p": 3, "q": 2, "e": 1, "kx": kx}
            yield "vectors", {"n": n, "p": 2, "q": 2, "e": 1.3, "kx": kx,
                              "same": True}
    big = (1000, 1024, 1025, 2047, 2500, 4096, 4097, 6000)
    if ctx.thorough:
        big += (511, 513, 8191, 8193, 12000, 16384, 16385, 20000)
    for i, n in enumerate(big):
        yield "large", {"n": n, "kx": "normal", "ky": "heavy"}
        yield "large", {"n": n, "kx": "ties", "ky": "uniform"}
        if ctx.thorough:
            yield "large", {"n": n, "kx": "ramp", "ky": "nearsorted"}
            yield "large", {"n": n, "kx": "saw", "ky": "blocks"}
    yield "vectors", {"n": 1100, "p": 2, "q": 3, "e": 1}
    yield "vectors", {"n": 700, "p": 1, "q": 2, "e": 0.7}


def random_case(ctx, rng):
    u = rng.random()
    if u < 0.6:
        return "variables", {
            "n": data.size(rng, 4, 600 if ctx.thorough else 300),
            "kx": str(rng.choice(data.VEC_KINDS)),
            "rel": str(rng.choice(data.PAIRS))}
    if u < 0.97:
        e = float(rng.choice(EXPONENTS)) if rng.integers(2) else float(
            rng.uniform(0.02, 1.98))
        return "vectors", {
            "n": data.size(rng, 4, 150), "p": int(rng.integers(0, 9)),
            "q": int(rng.integers(0, 9)), "e": e,
            "same": bool(rng.integers(4) == 0)}
    return "large", {"n": int(rng.integers(500, 5000)),
                     "kx": str(rng.choice(("normal", "ties", "heavy"))),
                     "ky": str(rng.choice(("uniform", "two", "ramp")))}
