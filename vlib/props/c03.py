"""C03: correlations and stats bundles are consistent and correct."""
import numpy as np

import data
import dcor
import oracle
from common import (ALL_WAYS, BIG_WAYS, TOL, VEC_WAYS, corr_parts, cov_tol, dress, dress2,
                    exponent_kw, way_kw)

data.UNITS = True


def unroot(ctx, v, what, **d):
    v = ctx.num(v, what)
    if not v >= 0:
        ctx.viol("%s: a square root is negative or NaN" % what,
                 got=float(v), **d)
    return v * v


def bundle(ctx, rng, x, y, e, way, dc, desc):
    kw = {**way_kw(rng, way), **exponent_kw(rng, e)}
    d = {"way": way, "n": dc.n, "exponent": e, "desc": desc, "x": x, "y": y}
    xa, ya = dress2(ctx, rng, x, y)
    f = TOL * (1 + dc.n / 200.0)
    tiny = np.longdouble(1e-300)
    fams = [("distance_stats_sqr", "distance_covariance_sqr",
             "distance_correlation_sqr", False, False),
            ("distance_stats", "distance_covariance",
             "distance_correlation", False, True)]
    if dc.n > 3:
        fams.append(("u_distance_stats_sqr", "u_distance_covariance_sqr",
                     "u_distance_correlation_sqr", True, False))
    for st, cf, rf, bc, root in fams:
        s = ctx.call(st, getattr(dcor, st), xa, ya, **kw)
        cov = ctx.call(cf, getattr(dcor, cf), xa, ya, **kw)
        vx = ctx.call(cf, getattr(dcor, cf), xa, xa, **kw)
        vy = ctx.call(cf, getattr(dcor, cf), ya, ya, **kw)
        corr = ctx.call(rf, getattr(dcor, rf), xa, ya, **kw)
        fields = list(s)
        ctx.check(len(fields) == 4, "%s does not unpack in 4 values" % st)
        vals = []
        for name, it in zip(("covariance_xy", "correlation_xy",
                             "variance_x", "variance_y"), fields):
            a = getattr(s, name)
            ctx.check(ctx.num(a, name) == ctx.num(it, name)
                      or np.isnan(ctx.num(a, name)),
                      "%s unpacks in another order" % st, **d)
            vals.append(a)
        if root:
            cov, vx, vy, corr = [unroot(ctx, v, st, **d)
                                 for v in (cov, vx, vy, corr)]
            vals = [unroot(ctx, v, st, **d) for v in vals]
        g = 20 if bc else 1
        ocov, ovx, ovy = dc.get(bc)
        clip = (lambda v: max(v, 0)) if root else (lambda v: v)
        txy = cov_tol(dc) * g
        txx = f * g * dc.mx ** 2 + tiny
        tyy = f * g * dc.my ** 2 + tiny
        for v, w, t, nm in ((vals[0], ocov, txy, "covariance_xy"),
                            (vals[2], ovx, txx, "variance_x"),
                            (vals[3], ovy, tyy, "variance_y")):
            ctx.close(v, clip(w), t, "%s.%s is wrong" % (st, nm), **d)
        ctx.close(vals[0], cov, 2 * txy, "%s.covariance_xy differs from %s"
                  % (st, cf), **d)
        ctx.close(vals[2], vx, 2 * txx, "%s.variance_x differs from %s(x, x)"
                  % (st, cf), **d)
        ctx.close(vals[3], vy, 2 * tyy, "%s.variance_y differs from %s(y, y)"
                  % (st, cf), **d)
        cp = corr_parts(dc, bc)
        if cp is None:
            ctx.ev("degenerate_correlations_skipped")
            continue
        ctx.close(vals[1], clip(cp[0]), cp[1], "%s.correlation_xy is not "
                  "the covariance over the root of the variances" % st, **d)
        ctx.close(corr, clip(cp[0]), cp[1], "%s is not the covariance over "
                  "the root of the variances" % rf, **d)
        if cp[1] == 0:
            ctx.ev("zero_variance_seen")
    ctx.feat("way", way)
    if dc.mx > 0 and dc.my > 0:
        ctx.nontrivial(x, y, e)


def k_variables(ctx, rng, n, kx, rel, nways=11):
    x, y, desc = data.pair(rng, n, kx, None, rel)
    dc = oracle.DC(x, y)
    ctx.feat("n", n)
    ctx.feat("structure", desc)
    ways = ALL_WAYS if nways >= 11 else [
        ALL_WAYS[i] for i in rng.permutation(len(ALL_WAYS))[:nways]]
    for way in ways:
        bundle(ctx, rng, x, y, 1, way, dc, desc)
    ctx.sample({"n": n, "structure": desc})


def k_large(ctx, rng, n, kx, ky):
    x, y = data.vec(rng, n, kx), data.vec(rng, n, ky)
    y = y + 0.3 * (np.std(y) / (np.std(x) or 1)) * x
    dc = oracle.FastDC(x, y)
    ctx.feat("n", n)
    for k in rng.permutation(len(BIG_WAYS))[:3]:
        bundle(ctx, rng, x, y, 1, BIG_WAYS[k], dc, (kx, ky))


def k_lattice(ctx, rng, n, p, q, e):
    xv, yv, i, j = oracle.lattice(rng, n, p, q)
    ctx.feat("n", n)
    bundle(ctx, rng, xv[i], yv[j], e, ("naive", "AUTO"),
           oracle.LatticeDC(xv, yv, i, j, exponent=e), "lattice")


def k_vectors(ctx, rng, n, p, q, e, kx=None):
    x = data.mat(rng, n, p, kx)
    y = data.mat(rng, n, q)
    dc = oracle.DC(x, y, exponent=e)
    ctx.feat("exponent", float(e))
    ctx.feat("dims", (p, q))
    for way in VEC_WAYS:
        bundle(ctx, rng, x, y, e, way, dc, "vector")


def k_constant(ctx, rng, n, p, which, value, e=1):
    """A constant sample: everything is zero, the other variance is not."""
    c = np.full((n, p) if p else n, value)
    o = data.mat(rng, n, p, "normal") if p else data.vec(rng, n, "normal")
    x, y = {"x": (c, o), "y": (o, c), "both": (c, c.copy())}[which]
    dc = oracle.DC(x, y, exponent=e)
    for way in (ALL_WAYS if p <= 1 and e == 1 and n > 3 else VEC_WAYS):
        bundle(ctx, rng, x, y, e, way, dc, "constant")
    ctx.nontrivial(x, y, which, e)


def k_roots(ctx, rng, a, b, kx, n_ways):
    """Samples of exactly zero covariance: rounding gives either sign."""
    u, v = data.vec(rng, a, kx), data.vec(rng, b, "normal")
    x, y = np.repeat(u, b), np.tile(v, a)
    x = x * float(2.0 ** rng.integers(-20, 21))
    p = rng.permutation(a * b)
    x, y = x[p], y[p]
    for way in [ALL_WAYS[i] for i in rng.permutation(len(ALL_WAYS))[:n_ways]]:
        kw = way_kw(rng, way)
        d = {"way": way, "x": x, "y": y}
        got = [(nm, ctx.num(ctx.call(nm + "_sqr", getattr(dcor, nm + "_sqr"),
                                     x, y, **kw), nm),
                ctx.num(ctx.call(nm, getattr(dcor, nm), x, y, **kw), nm))
               for nm in ("distance_covariance", "distance_correlation")]
        s2 = ctx.call("distance_stats_sqr", dcor.distance_stats_sqr, x, y,
                      **kw)
        s1 = ctx.call("distance_stats", dcor.distance_stats, x, y, **kw)
        for i, nm in enumerate(("covariance_xy", "correlation_xy",
                                "variance_x", "variance_y")):
            got.append(("distance_stats." + nm,
                        ctx.num(s2[i] if isinstance(s2, tuple)
                                else getattr(s2, nm), nm),
                        ctx.num(s1[i] if isinstance(s1, tuple)
                                else getattr(s1, nm), nm)))
        for nm, sq, root in got:
            if not np.isfinite(sq):
                continue
            if sq < 0:
                ctx.ev("negative_squares_seen")
                ctx.check(root * root <= 1e-6 * abs(sq), "%s is not zero "
                          "where its square is negative" % nm,
                          squared=float(sq), root=float(root), **d)
            elif sq > 1e-300:
                ctx.close(root * root, sq, 1e-9 * abs(sq), "%s is not the "
                          "square root of the squared statistic" % nm,
                          **d)
    ctx.nontrivial(x, y)


KINDS = {"large": k_large, "lattice": k_lattice, "roots": k_roots, "variables": k_variables, "vectors": k_vectors,
         "constant": k_constant}


def systematic(ctx):
    for i, (a, b) in enumerate(((2, 2), (3, 4), (5, 2), (10, 10), (7, 30),
                                (25, 4), (12, 12), (40, 40), (6, 6))):
        for k in ("normal", "ties", "lattice", "heavy")[i % 2:]:
            if k in data.VEC_KINDS:
                yield "roots", {"a": a, "b": b, "kx": k, "n_ways": 11}
    for n in (20000, 46400, 66000, 131100):
        yield "large", {"n": n, "kx": "normal", "ky": "heavy"}
        yield "large", {"n": n, "kx": "ties", "ky": "normal"}
    yield "lattice", {"n": 4200, "p": 2, "q": 3, "e": 1}
    yield "lattice", {"n": 5100, "p": 1, "q": 1, "e": 0.5}
    for n in (700, 1100, 2100):
        yield "variables", {"n": n, "kx": "normal", "rel": "noisy"}
        yield "variables", {"n": n, "kx": "ties", "rel": "step"}
    for n, p, q in ((1100, 2, 1), (50, 130, 300)):
        yield "vectors", {"n": n, "p": p, "q": q, "e": 1}
        yield "vectors", {"n": n, "p": p, "q": q, "e": 0.5}
    yield "constant", {"n": 1100, "p": 0, "which": "x", "value": 0.1}
    yield "constant", {"n": 1100, "p": 2, "which": "y", "value": 0.1}
    for i, n in enumerate(range(4, 60)):
        for j in range(2 if not ctx.thorough else 6):
            yield "variables", {
                "n": n,
                "kx": data.VEC_KINDS[(5 * i + 11 * j) % len(data.VEC_KINDS)],
                "rel": data.PAIRS[(i + 3 * j) % len(data.PAIRS)]}
    for k in data.VEC_KINDS:
        for r in data.PAIRS:
            yield "variables", {"n": 10, "kx": k, "rel": r, "nways": 4}
    for n in (64, 128, 200, 257):
        yield "variables", {"n": n, "kx": "heavy", "rel": "noisy"}
    for v in (0.0, 0.1, 1 / 3, -7.7, 1e6 + 0.1, 1e-9 / 7):
        for which in ("x", "y", "both"):
            for n in (4, 7, 20, 100):
                yield "constant", {"n": n, "p": 0, "which": which, "value": v}
            yield "constant", {"n": 9, "p": 1, "which": which, "value": v}
            yield "constant", {"n": 9, "p": 3, "which": which, "value": v}
            yield "constant", {"n": 9, "p": 2, "which": which, "value": v,
                               "e": 0.5}
    for e in (0.3, 0.5, 1, 1.2, 1.5, 1.95, 1.003):
        for p, q in ((1, 1), (1, 2), (2, 1), (3, 3), (6, 2), (25, 4)):
            yield "vectors", {"n": 6 + 5 * p % 17, "p": p, "q": q, "e": e}
    for n in (2, 3):
        yield "vectors", {"n": n, "p": 2, "q": 1, "e": 1}
        yield "vectors", {"n": n, "p": 1, "q": 1, "e": 1}


def random_case(ctx, rng):
    if rng.random() < 0.15:
        return "roots", {"a": int(rng.integers(2, 20)),
                         "b": int(rng.integers(2, 20)),
                         "kx": str(rng.choice(data.VEC_KINDS)), "n_ways": 4}
    if rng.random() < 0.6:
        return "variables", {
            "n": data.size(rng, 4, 300),
            "kx": str(rng.choice(data.VEC_KINDS)),
            "rel": str(rng.choice(data.PAIRS)), "nways": 3}
    return "vectors", {
        "n": data.size(rng, 4, 120), "p": int(rng.integers(1, 8)),
        "q": int(rng.integers(1, 8)),
        "e": float(rng.choice((1, 0.5, rng.uniform(0.05, 1.95))))}
