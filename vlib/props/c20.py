"""C20: the number type of the samples never costs accuracy."""
from decimal import Decimal
from fractions import Fraction
import warnings

import numpy as np

import api
import data
import dcor
import oracle
from common import corr_parts, cov_tol
from dcor import CompileMode as CM, DistanceCovarianceMethod as DM, \
    RowwiseMode as RM

# dtype -> values that it holds exactly and that wrap or round if the
# arithmetic is done in it.
RANGES = {
    "bool": (0, 1), "int8": (-128, 127), "uint8": (0, 255),
    "int16": (-32768, 32767), "uint16": (0, 65535),
    "int32": (-2**31, 2**31 - 1), "uint32": (0, 2**32 - 1),
    "int64": (-2**50, 2**50), "uint64": (0, 2**51),
    "float16": (-2048, 2048), "float32": (-2**24, 2**24),
    "float64": (-2**50, 2**50),
    ">i4": (-2**31, 2**31 - 1), ">u2": (0, 65535), ">f4": (-2**24, 2**24),
    ">f8": (-1000, 1000), "int_": (-1000, 1000),
}
DTYPES = tuple(RANGES)
WAYS = (("AVL", "COMPILE_CPU"), ("AVL", "NO_COMPILE"), ("AVL", "AUTO"),
        ("MERGESORT", "COMPILE_CPU"), ("MERGESORT", "NO_COMPILE"),
        ("MERGESORT", "AUTO"), ("AUTO", "AUTO"), ("NAIVE", "AUTO"),
        ("NAIVE", "NO_COMPILE"))

data.UNITS = True


def values(rng, shape, dt, how):
    """Values of the dtype, as the float64 array with the same values."""
    lo, hi = RANGES[dt]
    if how == "edges":
        v = rng.choice(np.array([lo, hi, lo, hi, (lo + hi) // 2], float),
                       size=shape)
    elif how == "small":
        v = rng.integers(max(lo, 0), min(hi, 9) + 1, size=shape)
    else:
        v = rng.integers(lo, hi, size=shape, endpoint=True)
    v = np.asarray(v).astype(float)
    if "f" in dt and how == "real":
        v = rng.normal(size=shape) * 10.0 ** int(rng.integers(-2, 4))
    return v.astype(dt).astype(float)


def k_dtypes(ctx, rng, n, dx, dy, how, p=0, q=0, e=1):
    """Estimators on narrow types against extended-precision reference."""
    x = values(rng, (n, p) if p else n, dx, how)
    y = values(rng, (n, q) if q else n, dy, how)
    if np.ptp(x, axis=0).max() == 0 or np.ptp(y, axis=0).max() == 0:
        x[0], x[-1] = RANGES[dx]
        y[0], y[-1] = RANGES[dy]
    dc = (oracle.DC(x, y, exponent=e) if n < 5000
          else oracle.FastDC(x, y))
    tol = cov_tol(dc)
    xa, ya = x.astype(dx), y.astype(dy)
    for v, w in ((xa, x), (ya, y)):
        assert (v.astype(float) == w).all()
    ctx.feat("dtypes", (dx, dy))
    ctx.feat("range", how)
    kw = {} if e == 1 else {"exponent": e}
    ways = WAYS if p < 2 and q < 2 and e == 1 else (
        ("AUTO", "AUTO"), ("NAIVE", "AUTO"))
    if n >= 5000:
        ways = [w for w in WAYS if w[0] != "NAIVE" and w[1] != "NO_COMPILE"]
    for m, c in ways:
        o = dict(method=DM[m], compile_mode=CM[c], **kw)
        d = dict(way=(m, c), dx=dx, dy=dy, n=n, how=how, e=e, p=p, q=q,
                 x=x, y=y)
        for f, want, t in (("distance_covariance_sqr", dc.cov, tol),
                           ("u_distance_covariance_sqr", dc.ucov, 20 * tol)):
            r = ctx.call("%s(%s, %s)" % (f, dx, dy), getattr(dcor, f), xa, ya,
                         **o)
            ctx.close(r, want, t, "%s: accuracy lost with this number type"
                      % f, "compared", **d)
        for f, bc in (("distance_correlation_sqr", False),
                      ("u_distance_correlation_sqr", True)):
            cp = corr_parts(dc, bc)
            if cp is None:
                ctx.ev("degenerate_correlations_skipped")
                continue
            r = ctx.call("%s(%s, %s)" % (f, dx, dy), getattr(dcor, f), xa, ya,
                         **o)
            ctx.close(r, cp[0], cp[1] * 4, "%s: accuracy lost with this "
                      "number type" % f, "compared", **d)
        s = ctx.call("distance_stats_sqr", dcor.distance_stats_sqr, xa, ya,
                     **o)
        for k, want, t in (("covariance_xy", dc.cov, tol),
                           ("variance_x", dc.vx, tol * dc.mx / dc.my),
                           ("variance_y", dc.vy, tol * dc.my / dc.mx)):
            ctx.close(getattr(s, k), want, t, "distance_stats_sqr.%s: "
                      "accuracy lost with this number type" % k, "compared",
                      **d)
    ctx.nontrivial(xa, ya, e)
    ctx.sample({"dtypes": (dx, dy), "n": n, "dcov_sqr": float(dc.cov)})


def k_api(ctx, rng, n, dt, how):
    """Every other function: the same as on the same values as doubles."""
    p = int(rng.integers(1, 4))
    x, y, z = (values(rng, (n, p), dt, how) for _ in range(3))
    for v in (x, y, z):
        v[0], v[1] = RANGES[dt]
    w = values(rng, (n + 3, p), dt, how)
    big = max(np.abs(v).max() for v in (x, y, z, w)) or 1.0
    a = [v.astype(dt) for v in (x, y, z, w)]
    P = dcor.distances.pairwise_distances
    t = {"num_resamples": 7, "random_state": int(rng.integers(2**31))}
    ctx.feat("dtypes", dt)

    def cmp(name, fn, dbl, nar, scale):
        want = fn(*dbl)
        got = ctx.call("%s(%s)" % (name, dt), fn, *nar)
        for g, v in zip(api.flat(got), api.flat(want)):
            ctx.allclose(g, v, 1e-10 * scale * n, "%s: accuracy lost with "
                         "this number type" % name, "compared", dtype=dt, n=n,
                         how=how, p=p)
        ctx.feat("function", name)

    X, Y, Z, W = x, y, z, w
    A, B, C, D = a
    d1 = big * 2 * p
    for e in (1, 0.5, 1.5):
        s = max(d1, 1.0) ** e
        cmp("pairwise_distances(x)", lambda u: P(u, exponent=e), (X,), (A,),
            s)
        cmp("pairwise_distances(x, y)", lambda u, v: P(u, v, exponent=e),
            (X, W), (A, D), s)
        # One side narrow, the other one double.
        cmp("pairwise_distances(x, y) mixed", lambda u, v: P(
            u, v, exponent=e), (X, W), (A, W), s)
        for st in ("V", "U"):
            cmp("energy_distance", lambda u, v: dcor.energy_distance(
                u, v, exponent=e, estimation_stat=st), (X, W), (A, D), s)
        cmp("energy_test_statistic", lambda u, v: (
            dcor.homogeneity.energy_test_statistic(u, v, exponent=e)),
            (X, W), (A, D), s * n)
    cmp("partial_distance_covariance", dcor.partial_distance_covariance,
        (X, Y, Z), (A, B, C), d1 * d1)
    # Correlations: only where they are well determined.
    dc = [oracle.DC(u, v) for u, v in ((X, Y), (X, Z), (Y, Z))]
    r = [corr_parts(v, True) for v in dc]
    if all(v is not None and v[1] < 1e-8 for v in r):
        if max(abs(r[1][0]), abs(r[2][0])) < 0.99:
            cmp("partial_distance_correlation",
                dcor.partial_distance_correlation, (X, Y, Z), (A, B, C), 1e3)
        if abs(r[0][0]) < 0.99:
            cmp("distance_correlation_t_statistic",
                dcor.independence.distance_correlation_t_statistic, (X, Y),
                (A, B), 1e3)
    cmp("distance_covariance_test.statistic", lambda u, v: (
        dcor.independence.distance_covariance_test(u, v, **t).statistic),
        (X, Y), (A, B), d1 * d1 * n)
    # Rowwise, with its optimized versions.
    R, S = values(rng, (3, n), dt, how), values(rng, (3, n), dt, how)
    R[:, 0], R[:, 1], S[:, 1], S[:, 2] = RANGES[dt] * 2
    Rn, Sn = R.astype(dt), S.astype(dt)
    for f in ("distance_covariance_sqr", "u_distance_covariance_sqr"):
        for mode in (RM.AUTO, RM.NAIVE):
            cmp("rowwise(%s)" % f, lambda u, v: dcor.rowwise(
                getattr(dcor, f), u, v, rowwise_mode=mode), (R, S), (Rn, Sn),
                16 * big * big)
    ctx.nontrivial(*a)


def k_wide(ctx, rng, n, how):
    """More precise than double: differences that a double cannot hold."""
    x = np.longdouble(1) + rng.integers(0, 64, n).astype(np.longdouble) \
        * np.longdouble(2) ** -60
    y = np.longdouble(-3) + rng.integers(0, 64, n).astype(np.longdouble) \
        * np.longdouble(2) ** -60
    x[0], x[1], y[1], y[2] = x.min(), x.max(), y.max(), y.min()
    if how == "mixed":
        y = rng.normal(size=n)
    elif how == "plain":
        x, y = rng.normal(size=n).astype(np.longdouble) / 3, \
            rng.normal(size=n).astype(np.longdouble) / 7
    dc = oracle.DC(x, y)
    if dc.mx == 0 or dc.my == 0:
        ctx.inconclusive()
    P = dcor.distances.pairwise_distances
    ctx.feat("dtypes", "longdouble")
    g = ctx.call("pairwise_distances(longdouble)", P, x)
    # Double would be wrong by 100 %; a little slack for other formulas.
    ctx.allclose(g, oracle.dist(x), 1e-6 * dc.mx, "pairwise_distances: "
                 "precision beyond double lost", "wide_compared")
    g = ctx.call("pairwise_distances(longdouble)", P, x, x[::-1].copy())
    ctx.allclose(g, oracle.dist(x, x[::-1]), 1e-6 * dc.mx,
                 "pairwise_distances: precision beyond double lost",
                 "wide_compared")
    for m, c in (("NAIVE", "AUTO"), ("AVL", "NO_COMPILE"),
                 ("MERGESORT", "NO_COMPILE"), ("AUTO", "NO_COMPILE"),
                 ("AVL", "AUTO"), ("AUTO", "AUTO")):
        if how == "mixed" and m != "NAIVE":
            continue
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = ctx.call("distance_covariance_sqr(longdouble)",
                         dcor.distance_covariance_sqr, x, y, method=DM[m],
                         compile_mode=CM[c])
        ctx.close(r, dc.cov, 1e-4 * dc.mx * dc.my / 64,
                  "distance_covariance_sqr: precision beyond double lost",
                  "wide_compared", way=(m, c), n=n, how=how)
    ctx.nontrivial(x, y)


def k_exact(ctx, rng, n, kind):
    """Exact number types of Python (object arrays)."""
    xi = rng.integers(-9, 10, n)
    yi = rng.integers(-9, 10, n) + (xi if rng.integers(2) else 0)
    xi[0], xi[-1] = -9, 9
    yi[0], yi[1] = -20, 20
    den = [int(v) for v in rng.integers(1, 12, 2 * n)]
    fx = [Fraction(int(v), d) for v, d in zip(xi, den)]
    fy = [Fraction(int(v), d) for v, d in zip(yi, den[n:])]
    if kind == "decimal":
        fx = [Fraction(int(v), 8) for v in xi]
        fy = [Fraction(int(v), 16) for v in yi]
        x, y = (np.array([Decimal(v.numerator) / Decimal(v.denominator)
                          for v in w], dtype=object) for w in (fx, fy))
    else:
        x, y = np.array(fx, dtype=object), np.array(fy, dtype=object)
    mx, my = max(fx) - min(fx), max(fy) - min(fy)
    ctx.feat("dtypes", kind)
    for m, c in (("AVL", "NO_COMPILE"), ("AVL", "AUTO"), ("AUTO", "AUTO"),
                 ("AUTO", "NO_COMPILE"), ("NAIVE", "AUTO")):
        for f, u in (("distance_covariance_sqr", False),
                     ("u_distance_covariance_sqr", True)):
            want = oracle.exact_dcov(fx, fy, u)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = ctx.call("%s(%s)" % (f, kind), getattr(dcor, f), x, y,
                             method=DM[m], compile_mode=CM[c])
            d = {"way": (m, c), "n": n, "kind": kind, "got": str(r),
                 "want": str(want), "x": x, "y": y}
            r = r.item() if isinstance(r, (np.ndarray, np.generic)) else r
            if kind == "fraction" and m != "NAIVE":
                # Type "Fraction" or not, the value may have no error.
                ctx.check(Fraction(r) == want, "%s of fractions is not exact"
                          % f, "exact_compared", **d)
            elif kind == "decimal":
                ctx.check(isinstance(r, Decimal), "%s of decimals is not a "
                          "decimal" % f, "exact_compared", **d)
                err = abs(Fraction(r) - want)
                ctx.check(err <= Fraction(1, 10**20) * mx * my * n,
                          "%s of decimals loses precision" % f,
                          "exact_compared", **d)
            else:
                ctx.check(abs(Fraction(r) - want) <= Fraction(1, 10**11)
                          * mx * my, "%s of %ss differs from its definition"
                          % (f, kind), "exact_compared", **d)
    ctx.nontrivial(x, y)


KINDS = {"dtypes": k_dtypes, "api": k_api, "wide": k_wide, "exact": k_exact}
HOWS = ("full", "edges", "small", "real")


def systematic(ctx):
    for i, dx in enumerate(DTYPES):
        if dx != "bool":
            yield "dtypes", {"n": (20000, 66000)[i % 2], "dx": dx,
                             "dy": DTYPES[(i + 1) % len(DTYPES)],
                             "how": "full"}
    for dx in ("int8", "int16", "int32", "int64", "uint8", "uint16",
               "float16", "float32"):
        yield "dtypes", {"n": 1500, "dx": dx, "dy": dx, "how": "full"}
        yield "api", {"n": 400, "dt": dx, "how": "full"}
    for i, dx in enumerate(DTYPES):
        for j, how in enumerate(("full", "edges")):
            yield "dtypes", {"n": 6 + (3 * i + j) % 14, "dx": dx, "dy": dx,
                             "how": how}
            yield "api", {"n": 8 + (i + j) % 7, "dt": dx, "how": how}
        yield "dtypes", {"n": 12, "dx": dx, "dy": DTYPES[(5 * i + 3) % len(
            DTYPES)], "how": "full"}
        yield "dtypes", {"n": 12, "dx": dx, "dy": "float64", "how": "full"}
        yield "dtypes", {"n": 9, "dx": dx, "dy": dx, "how": "full", "p": 2,
                         "q": 1}
        yield "dtypes", {"n": 9, "dx": dx, "dy": dx, "how": "full", "p": 1,
                         "q": 1, "e": 1.5}
    for dx in ("float16", "float32"):
        for n in (20, 130, 300):
            yield "dtypes", {"n": n, "dx": dx, "dy": dx, "how": "real"}
    for how in ("close", "mixed", "plain"):
        for n in (5, 16, 33):
            yield "wide", {"n": n, "how": how}
    for kind in ("fraction", "decimal"):
        for n in (4, 5, 8, 11, 17):
            yield "exact", {"n": n, "kind": kind}


def random_case(ctx, rng):
    u = rng.random()
    pick = lambda s: s[int(rng.integers(len(s)))]
    if u < 0.5:
        p, q = (0, 0) if rng.integers(3) else (int(rng.integers(4)),
                                               int(rng.integers(4)))
        return "dtypes", {"n": data.size(rng, 4, 200), "dx": pick(DTYPES),
                          "dy": pick(DTYPES), "how": pick(HOWS), "p": p,
                          "q": q, "e": 1 if rng.integers(4) else float(
                              round(rng.uniform(0.2, 1.8), 2))}
    if u < 0.8:
        return "api", {"n": int(rng.integers(6, 30)), "dt": pick(DTYPES),
                       "how": pick(HOWS)}
    if u < 0.9:
        return "wide", {"n": int(rng.integers(5, 40)),
                        "how": pick(("close", "mixed", "plain"))}
    return "exact", {"n": int(rng.integers(4, 24)),
                     "kind": pick(("fraction", "decimal"))}
