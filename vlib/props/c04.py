"""C04: dependence-measure axioms (range, symmetry, zero, one)."""
import numpy as np

import data
import dcor
import oracle
from common import (ALL_WAYS, BIG_WAYS, TOL, VEC_WAYS, corr_parts, cov_tol, dress, dress2,
                    exponent_kw, way_kw)

data.UNITS = True


def axioms(ctx, rng, x, y, e, way, dc, desc):
    kw = {**way_kw(rng, way), **exponent_kw(rng, e)}
    d = {"way": way, "n": dc.n, "exponent": e, "desc": desc, "x": x, "y": y}
    xa, ya = dress2(ctx, rng, x, y)
    tol = cov_tol(dc)
    f = TOL * (1 + dc.n / 200.0)
    num = ctx.num

    def both(name):
        g = getattr(dcor, name)
        a = num(ctx.call(name, g, xa, ya, **kw), name)
        b = num(ctx.call(name, g, ya, xa, **kw), name)
        return a, b

    a, b = both("distance_covariance_sqr")
    ctx.close(a, b, 2 * tol, "distance_covariance_sqr is not symmetric", **d)
    ctx.check(a >= -tol, "distance_covariance_sqr is negative", "range",
              got=float(a), **d)
    a2, b2 = both("distance_covariance")
    ctx.check(a2 >= 0 and b2 >= 0, "distance_covariance is negative", "range",
              got=float(a2), **d)
    ctx.close(a2 ** 2, b2 ** 2, 2 * tol, "distance_covariance is not "
              "symmetric", **d)
    st = ctx.call("stats", dcor.distance_stats_sqr, xa, ya, **kw)
    ts = ctx.call("stats", dcor.distance_stats_sqr, ya, xa, **kw)
    vx, vy = num(st.variance_x, "variance"), num(st.variance_y, "variance")
    ctx.close(vx, num(ts.variance_y, "v"), 2 * f * dc.mx ** 2 + 1e-300,
              "variances do not swap with the arguments", **d)
    ctx.close(vy, num(ts.variance_x, "v"), 2 * f * dc.my ** 2 + 1e-300,
              "variances do not swap with the arguments", **d)
    ctx.check(vx >= -f * dc.mx ** 2 and vy >= -f * dc.my ** 2,
              "a distance variance is negative", "range", **d)
    # Cauchy-Schwarz
    lim = np.sqrt(max(vx, 0) * max(vy, 0))
    slack = (tol + np.sqrt(f) * dc.mx * dc.my * 1e-3)
    ctx.check(abs(a) <= lim + slack, "covariance above the root of the "
              "product of variances", "range", got=float(a),
              limit=float(lim), **d)
    cp = corr_parts(dc, False)
    if cp is not None:
        r, r_ = both("distance_correlation")
        ctx.check(-1e-12 <= r <= 1 + 1e-9 + cp[1],
                  "distance_correlation out of [0, 1]", "range",
                  got=float(r), **d)
        ctx.close(r ** 2, r_ ** 2, 2 * cp[1] + 1e-12,
                  "distance_correlation is not symmetric", **d)
        q, q_ = both("distance_correlation_sqr")
        ctx.check(-cp[1] - 1e-12 <= q <= 1 + 1e-9 + cp[1],
                  "distance_correlation_sqr out of [0, 1]", "range",
                  got=float(q), **d)
        ctx.close(q, q_, 2 * cp[1], "distance_correlation_sqr is not "
                  "symmetric", **d)
        if dc.mx == 0 or dc.my == 0:
            ctx.check(r == 0 and q == 0, "correlation with a constant is "
                      "not zero", "constant", **d)
        for v, m, var in ((xa, dc.mx, dc.vx), (ya, dc.my, dc.vy)):
            s = num(ctx.call("self", dcor.distance_correlation, v, v, **kw),
                    "self correlation")
            ctx.close(s ** 2, 1 if m > 0 else 0,
                      20 * f * m ** 2 / abs(var) + 1e-9 if m else 0,
                      "distance_correlation(x, x) is not one", **d)
    if dc.n > 3:
        ucp = corr_parts(dc, True)
        u, u_ = both("u_distance_covariance_sqr")
        ctx.close(u, u_, 40 * tol, "u_distance_covariance_sqr is not "
                  "symmetric", **d)
        if ucp is not None:
            w, w_ = both("u_distance_correlation_sqr")
            ctx.check(-1 - 1e-9 - ucp[1] <= w <= 1 + 1e-9 + ucp[1],
                      "u_distance_correlation_sqr out of [-1, 1]", "range",
                      got=float(w), **d)
            ctx.close(w, w_, 2 * ucp[1], "u_distance_correlation_sqr is not "
                      "symmetric", **d)
            if dc.mx == 0 or dc.my == 0:
                ctx.check(w == 0 and w_ == 0, "u_distance_correlation_sqr "
                          "with a constant is not zero", "constant", **d)
            for v, m, var in ((xa, dc.mx, dc.uvx), (ya, dc.my, dc.uvy)):
                s = num(ctx.call("self", dcor.u_distance_correlation_sqr, v,
                                 v, **kw), "self correlation")
                ctx.close(s, 1 if m > 0 else 0,
                          20 * f * m ** 2 / abs(var) + 1e-9 if m else 0,
                          "u_distance_correlation_sqr(x, x) is not one", **d)
    # the other bundles
    for name, u in (("distance_stats", False), ("u_distance_stats_sqr", True)):
        if u and dc.n < 4:
            continue
        g = getattr(dcor, name)
        r, s = (ctx.call(name, g, *a, **kw) for a in ((xa, ya), (ya, xa)))
        k = 40 if u else 2
        pw = 1 if u else 2

        def field(b, fld):
            v = num(getattr(b, fld), name)
            ctx.check(u or v >= 0, "%s: %s is negative" % (name, fld),
                      "range", got=float(v), **d)
            return v ** pw
        ctx.close(field(r, "covariance_xy"), field(s, "covariance_xy"),
                  k * tol, "%s: the covariance is not symmetric" % name, **d)
        for f1, f2, m in (("variance_x", "variance_y", dc.mx),
                          ("variance_y", "variance_x", dc.my)):
            v, w = field(r, f1), field(s, f2)
            ctx.close(v, w, k * f * m ** 2 + 1e-300, "%s: variances do not "
                      "swap with the arguments" % name, **d)
            ctx.check(v >= -k * f * m ** 2 - 1e-300, "%s: a distance "
                      "variance is negative" % name, "range", **d)
        c = corr_parts(dc, u)
        if c is not None:
            v, w = (num(b.correlation_xy, name) for b in (r, s))
            ctx.check((-1 if u else 0) - 1e-12 - (c[1] if u else 0) <= v
                      <= 1 + 1e-9 + c[1], "%s: the correlation is out of "
                      "range" % name, "range", got=float(v), **d)
            ctx.close(v ** pw, w ** pw, 2 * c[1] + 1e-12, "%s: the "
                      "correlation is not symmetric" % name, **d)
            if dc.mx == 0 or dc.my == 0:
                ctx.check(v == 0 and w == 0, "%s: correlation with a "
                          "constant is not zero" % name, "constant", **d)
    if dc.mx > 0 and dc.my > 0:
        ctx.nontrivial(x, y, e, way)


def k_variables(ctx, rng, n, kx, rel):
    x, y, desc = data.pair(rng, n, kx, None, rel)
    dc = oracle.DC(x, y)
    ctx.feat("n", n)
    ctx.feat("structure", desc)
    for i in rng.permutation(len(ALL_WAYS))[:5]:
        ctx.feat("way", ALL_WAYS[i])
        axioms(ctx, rng, x, y, 1, ALL_WAYS[i], dc, desc)
    ctx.sample({"n": n, "structure": desc})


def k_large(ctx, rng, n, kx, ky):
    x, y = data.vec(rng, n, kx), data.vec(rng, n, ky)
    y = y + 0.3 * (np.std(y) / (np.std(x) or 1)) * x
    dc = oracle.FastDC(x, y)
    ctx.feat("n", n)
    for k in rng.permutation(len(BIG_WAYS))[:3]:
        axioms(ctx, rng, x, y, 1, BIG_WAYS[k], dc, (kx, ky))


def k_lattice(ctx, rng, n, p, q, e):
    xv, yv, i, j = oracle.lattice(rng, n, p, q)
    ctx.feat("n", n)
    axioms(ctx, rng, xv[i], yv[j], e, ("naive", "AUTO"),
           oracle.LatticeDC(xv, yv, i, j, exponent=e), "lattice")


def k_vectors(ctx, rng, n, p, q, e):
    x, y = data.mat(rng, n, p), data.mat(rng, n, q)
    dc = oracle.DC(x, y, exponent=e)
    ctx.feat("exponent", float(e))
    for way in VEC_WAYS[:3]:
        axioms(ctx, rng, x, y, e, way, dc, "vector")


def k_similar(ctx, rng, n, p, e):
    """Correlation one for y = a + b * x Q, Q orthogonal."""
    x = data.mat(rng, n, p, "normal")
    q, _ = np.linalg.qr(rng.normal(size=(p, p)))
    b = float(rng.choice([-3.0, -0.01, 0.5, 2.0, 100.0]))
    a = rng.normal(size=p) * 3
    y = a + b * (x @ q)
    dc = oracle.DC(x, y, exponent=e)
    for way in (ALL_WAYS if p == 1 and e == 1 and n > 3 else VEC_WAYS):
        kw = {**way_kw(rng, way), **exponent_kw(rng, e)}
        for name, root in (("distance_correlation", 1),
                           ("distance_correlation_sqr", 0),
                           ("u_distance_correlation_sqr", 0)):
            if name.startswith("u_") and n < 4:
                continue
            cp = corr_parts(dc, name.startswith("u_"))
            if cp is None or abs(cp[0] - 1) > 1e-8:
                ctx.ev("degenerate_correlations_skipped")
                continue
            r = ctx.call(name, getattr(dcor, name), x, y, **kw)
            ctx.close(r, 1, abs(cp[0] - 1) + cp[1] + 1e-9,
                      "%s is not one for a similarity" % name,
                      way=way, x=x, y=y, exponent=e)
    ctx.nontrivial(x, y, e)


def k_constant(ctx, rng, n, p, value, e=1):
    c = np.full((n, p) if p else n, value)
    o = data.mat(rng, n, p, "normal") if p else data.vec(rng, n, "heavy")
    for x, y in ((c, o), (o, c), (c, c), (c, c + 1)):
        dc = oracle.DC(x, y, exponent=e)
        for way in (ALL_WAYS if p <= 1 and e == 1 and n > 3 else VEC_WAYS):
            axioms(ctx, rng, x, y, e, way, dc, "constant")


KINDS = {"large": k_large, "lattice": k_lattice, "variables": k_variables, "vectors": k_vectors,
         "similar": k_similar, "constant": k_constant}


def systematic(ctx):
    for n in (20000, 46400, 66000, 131100):
        yield "large", {"n": n, "kx": "normal", "ky": "heavy"}
        yield "large", {"n": n, "kx": "ties", "ky": "normal"}
    yield "lattice", {"n": 4200, "p": 2, "q": 3, "e": 1}
    for n in (1100, 2100):
        yield "variables", {"n": n, "kx": "normal", "rel": "noisy"}
        yield "variables", {"n": n, "kx": "ties", "rel": "indep"}
    for n, p, q in ((1100, 2, 2), (50, 130, 300)):
        yield "vectors", {"n": n, "p": p, "q": q, "e": 1}
    yield "similar", {"n": 1100, "p": 1, "e": 1}
    yield "similar", {"n": 1100, "p": 3, "e": 1}
    yield "constant", {"n": 1100, "p": 0, "value": 0.1}
    yield "constant", {"n": 1100, "p": 2, "value": 0.1}
    for i, n in enumerate(range(4, 70)):
        for j in range(2):
            yield "variables", {
                "n": n,
                "kx": data.VEC_KINDS[(7 * i + 5 * j) % len(data.VEC_KINDS)],
                "rel": data.PAIRS[(i + 3 * j) % len(data.PAIRS)]}
    for k in data.VEC_KINDS:
        for r in ("indep", "same", "neg", "square", "step"):
            yield "variables", {"n": 12, "kx": k, "rel": r}
    for n in (2, 3, 4, 5, 8, 33, 100):
        for p in (1, 2, 5):
            for e in (1, 0.5, 1.7):
                yield "similar", {"n": n, "p": p, "e": e}
    for v in (0.0, 0.1, 1 / 3, 1e6 + 0.1):
        for n in (4, 9, 50, 100):
            yield "constant", {"n": n, "p": 0, "value": v}
        yield "constant", {"n": 8, "p": 1, "value": v}
        yield "constant", {"n": 8, "p": 3, "value": v}
        yield "constant", {"n": 8, "p": 2, "value": v, "e": 0.5}
    for e in (0.25, 1, 1.5, 0.997):
        for p, q in ((1, 1), (1, 3), (4, 2), (30, 30)):
            yield "vectors", {"n": 15, "p": p, "q": q, "e": e}
            yield "vectors", {"n": 80, "p": p, "q": q, "e": e}
    for n in (500, 700):
        yield "variables", {"n": n, "kx": "normal", "rel": "indep"}


def random_case(ctx, rng):
    u = rng.random()
    if u < 0.6:
        return "variables", {"n": data.size(rng, 4, 400),
                             "kx": str(rng.choice(data.VEC_KINDS)),
                             "rel": str(rng.choice(data.PAIRS))}
    if u < 0.85:
        return "vectors", {"n": data.size(rng, 4, 120),
                           "p": int(rng.integers(1, 7)),
                           "q": int(rng.integers(1, 7)),
                           "e": float(rng.uniform(0.05, 1.95))}
    return "similar", {"n": data.size(rng, 5, 100),
                       "p": int(rng.integers(1, 6)),
                       "e": float(rng.choice((1, 0.4, 1.6)))}
