"""C02: every method and compile mode computes the same value."""
import numpy as np

import data
import dcor
import oracle
from common import (ALL_WAYS, FAST_WAYS, TOL, VEC_WAYS, corr_parts, dress, dress2,
                    exponent_kw, way_kw)

COV = ("distance_covariance_sqr", "u_distance_covariance_sqr",
       "distance_covariance")
STATS = ("distance_stats_sqr", "u_distance_stats_sqr", "distance_stats")
CORR = ("distance_correlation_sqr", "u_distance_correlation_sqr",
        "distance_correlation", "distance_correlation_af_inv_sqr",
        "distance_correlation_af_inv")
SQRT = {"distance_covariance", "distance_stats", "distance_correlation",
        "distance_correlation_af_inv"}

data.UNITS = True


def observe(ctx, rng, x, y, way, e, ratio_ok, uratio_ok, af_ok):
    """All the numbers one way gives, square roots undone."""
    kw = way_kw(rng, way)
    out = {}

    def put(name, v, scale):
        v = ctx.num(v, name)
        f = name.split(".")[0]
        if f in SQRT:
            if not v >= 0:
                ctx.viol("%s is negative or NaN" % name, way=way,
                         got=float(v))
            v = v * v
        out[name] = (v, scale)

    for f in COV:
        put(f, ctx.call(f, getattr(dcor, f), x, y, **kw,
                        **exponent_kw(rng, e)), "xy")
    for f in STATS:
        s = ctx.call(f, getattr(dcor, f), x, y, **kw, **exponent_kw(rng, e))
        put(f + ".cov", s.covariance_xy, "xy")
        put(f + ".var_x", s.variance_x, "xx")
        put(f + ".var_y", s.variance_y, "yy")
        if (uratio_ok if f.startswith("u_") else ratio_ok):
            put(f + ".corr", s.correlation_xy, "1")
    for f in CORR:
        af = "af_inv" in f
        if af and not (af_ok and e == 1):
            continue
        if not (uratio_ok if f.startswith("u_") else ratio_ok):
            continue
        put(f, ctx.call(f, getattr(dcor, f), x, y, **kw,
                        **({} if af else exponent_kw(rng, e))),
            "af" if af else "1")
    return out


def agree(ctx, rng, x, y, ways, e, dc, desc):
    n = dc.n
    f = 2 * TOL * (1 + n / 200.0)
    cp, ucp = corr_parts(dc, False), corr_parts(dc, True)
    std = [np.std(v, axis=0) for v in (x, y)]
    af_ok = all(v.ndim == 1 or v.shape[1] == 1 for v in (x, y)) and all(
        float(np.min(s)) > 1e-9 * (float(np.max(np.abs(v))) + 1e-300)
        for s, v in zip(std, (x, y))) and cp is not None
    base = None
    for way in ways:
        xa, ya = dress2(ctx, rng, x, y)
        got = observe(ctx, rng, xa, ya, way, e, cp is not None,
                      ucp is not None, af_ok)
        ctx.feat("way", way)
        if base is None:
            base, base_way = got, way
            continue
        for name, (v, scale) in got.items():
            b = base[name][0]
            u = name.startswith("u_") and 20 or 1
            tol = {"xy": f * dc.mx * dc.my * u, "xx": f * dc.mx ** 2 * u,
                   "yy": f * dc.my ** 2 * u,
                   "1": 2 * ((ucp if u > 1 else cp) or (0, 0))[1],
                   "af": 100 * (cp or (0, 0))[1] + 1e-9}[scale]
            ctx.close(v, b, tol + 1e-300, "%s depends on the method or "
                      "compile mode" % name, way=way, reference_way=base_way,
                      n=n, desc=desc, x=x, y=y, exponent=e)
    if dc.mx > 0 and dc.my > 0:
        ctx.nontrivial(x, y, e)


def k_small(ctx, rng, n, kx, rel):
    x, y, desc = data.pair(rng, n, kx, None, rel)
    ctx.feat("n", n)
    ctx.feat("structure", desc)
    ways = list(ALL_WAYS)
    rng.shuffle(ways)
    agree(ctx, rng, x, y, [("naive", "AUTO")] + [tuple(w) for w in ways], 1,
          oracle.DC(x, y), desc)
    ctx.sample({"n": n, "structure": desc, "ways": len(ways)})


def k_vectors(ctx, rng, n, p, q, e):
    x, y = data.mat(rng, n, p), data.mat(rng, n, q)
    agree(ctx, rng, x, y, VEC_WAYS, e, oracle.DC(x, y, exponent=e), "vector")
    ctx.feat("exponent", e)


class Big:
    """Scales of a large sample, without n x n matrices."""


def k_big(ctx, rng, n, kx, ky, interp=False):
    x, y = data.vec(rng, n, kx), data.vec(rng, n, ky)
    if rng.integers(2):
        y = y + (np.std(y) / (np.std(x) or 1)) * x
    mx, my = np.ptp(x), np.ptp(y)
    f = 2 * TOL * (1 + n / 200.0)
    base = None
    ways = [w for w in FAST_WAYS if interp or w[1] != "NO_COMPILE"]
    if n <= 3000:
        ways = [("naive", "AUTO")] + ways
    for way in ways:
        kw = way_kw(rng, way)
        s = ctx.call("distance_stats_sqr", dcor.distance_stats_sqr,
                     *dress2(ctx, rng, x, y), **kw)
        u = ctx.call("u_distance_covariance_sqr",
                     dcor.u_distance_covariance_sqr, x, y, **kw)
        got = {"cov": (s.covariance_xy, mx * my), "u": (u, mx * my),
               "var_x": (s.variance_x, mx ** 2),
               "var_y": (s.variance_y, my ** 2)}
        got = {k: (ctx.num(v, k), sc) for k, (v, sc) in got.items()}
        if base is None:
            base = got
            continue
        for k, (v, sc) in got.items():
            ctx.close(v, base[k][0], f * sc, "%s of a large sample depends "
                      "on the method or compile mode" % k, way=way,
                      reference_way=ways[0], n=n, kinds=(kx, ky))
    ctx.feat("n", n)
    ctx.nontrivial(x, y, "big")


def k_huge(ctx, rng, n):
    """Millions of instances with few distinct values: closed form."""
    xv, yv, i, j = oracle.lattice(rng, n, 1, 1, a=9, b=6, last=False)
    x, y = xv[i, 0], yv[j, 0]
    dc = oracle.LatticeDC(xv, yv, i, j)
    tol = TOL * (1 + n / 200.0) * dc.mx * dc.my
    for f, want in ((dcor.distance_covariance_sqr, dc.cov),
                    (dcor.u_distance_covariance_sqr, dc.ucov)):
        for kw in ({}, {"method": "mergesort"}):
            r = ctx.call("huge", f, x[:, None] if rng.integers(2) else x, y,
                         **kw)
            ctx.close(r, want, tol, "wrong value for a very large sample",
                      n=n, **kw)
    ctx.feat("n", n)
    ctx.nontrivial(x, y, "huge")


KINDS = {"huge": k_huge, "small": k_small, "vectors": k_vectors, "big": k_big}


def systematic(ctx):
    yield "huge", {"n": 2**21 + int(3e4)}
    yield "vectors", {"n": 12, "p": 1, "q": 1, "e": 1.002}
    for n, p, q in ((1100, 2, 3), (40, 130, 5)):
        yield "vectors", {"n": n, "p": p, "q": q, "e": 1}
    for i, n in enumerate(range(4, 71)):
        for j in range(2 if not ctx.thorough else 8):
            yield "small", {
                "n": n,
                "kx": data.VEC_KINDS[(5 * i + 7 * j) % len(data.VEC_KINDS)],
                "rel": data.PAIRS[(3 * i + j) % len(data.PAIRS)]}
    for k in data.VEC_KINDS:
        for r in ("indep", "same", "perm", "noisy"):
            yield "small", {"n": 13, "kx": k, "rel": r}
    for n in (127, 128, 129, 255, 256, 257):
        yield "small", {"n": n, "kx": "ties", "rel": "noisy"}
    for e in (0.5, 1, 1.5):
        yield "vectors", {"n": 12, "p": 2, "q": 3, "e": e}
        yield "vectors", {"n": 9, "p": 1, "q": 4, "e": e}
        yield "vectors", {"n": 9, "p": 1, "q": 1, "e": e}
    for n in (511, 513, 1023, 1024, 1025, 2048, 3000):
        yield "big", {"n": n, "kx": "normal", "ky": "ties", "interp": True}
    for n in (4095, 4097, 8192, 10000, 16385, 32768, 50000):
        yield "big", {"n": n, "kx": "normal", "ky": "heavy"}
        yield "big", {"n": n, "kx": "ties", "ky": "nearsorted"}
    for n in (65537, 131073, 300000):
        yield "big", {"n": n, "kx": "normal", "ky": "ties"}
    if ctx.thorough:
        for n in (65535, 131072, 200000, 262145, 500000, 1000000):
            yield "big", {"n": n, "kx": "normal", "ky": "uniform"}
            yield "big", {"n": n, "kx": "saw", "ky": "ties"}
        for n in (5000, 9000, 16384):
            yield "big", {"n": n, "kx": "blocks", "ky": "normal",
                          "interp": True}


def random_case(ctx, rng):
    u = rng.random()
    if u < 0.8:
        return "small", {"n": data.size(rng, 4, 300),
                         "kx": str(rng.choice(data.VEC_KINDS)),
                         "rel": str(rng.choice(data.PAIRS))}
    if u < 0.9:
        return "vectors", {"n": data.size(rng, 4, 60),
                           "p": int(rng.integers(1, 5)),
                           "q": int(rng.integers(1, 5)),
                           "e": float(rng.choice((1, 0.5, 1.7)))}
    return "big", {"n": int(rng.integers(300, 6000)),
                   "kx": str(rng.choice(("normal", "ties", "heavy", "saw"))),
                   "ky": str(rng.choice(("uniform", "two", "ramp", "zeros"))),
                   "interp": bool(rng.integers(4) == 0)}
