"""C16: memory safety of the compiled kernels.

Lanes: bounds checking compiled into every kernel; malloc that poisons memory
with two different bytes; inputs between inaccessible, read-only pages; and
(thorough) Valgrind memcheck over the JIT-compiled code.
"""
import numpy as np

import data
import dcor
import guard
import oracle
from common import TOL, cov_tol
from dcor import CompileMode as CM, DistanceCovarianceMethod as DM, \
    RowwiseMode as RM

WAYS = (("AVL", "COMPILE_CPU"), ("MERGESORT", "COMPILE_CPU"),
        ("AUTO", "AUTO"), ("AVL", "NO_COMPILE"), ("MERGESORT", "NO_COMPILE"))


def run_ways(ctx, x, y, dc, d, interp=True):
    f = TOL * (1 + dc.n / 200.0)
    for m, c in WAYS:
        if c == "NO_COMPILE" and not interp:
            continue
        kw = {"method": getattr(DM, m), "compile_mode": getattr(CM, c)}
        v = ctx.call("distance_covariance_sqr[%s,%s]" % (m, c),
                     dcor.distance_covariance_sqr, x, y, **kw)
        ctx.close(v, dc.cov, cov_tol(dc), "distance_covariance_sqr[%s,%s]: "
                  "value" % (m, c), "kernel_runs", **d)
        v = ctx.call("u_distance_covariance_sqr[%s,%s]" % (m, c),
                     dcor.u_distance_covariance_sqr, x, y, **kw)
        ctx.close(v, dc.ucov, 20 * cov_tol(dc), "u_distance_covariance_sqr"
                  "[%s,%s]: value" % (m, c), "kernel_runs", **d)
        s = ctx.call("distance_stats_sqr[%s,%s]" % (m, c),
                     dcor.distance_stats_sqr, x, y, **kw)
        ctx.close(s.variance_x, dc.vx, f * dc.mx ** 2 + 1e-300,
                  "variance_x[%s,%s]" % (m, c), "kernel_runs", **d)
        ctx.close(s.variance_y, dc.vy, f * dc.my ** 2 + 1e-300,
                  "variance_y[%s,%s]" % (m, c), "kernel_runs", **d)
        ctx.feat("way", (ctx.lane, m, c))


def k_values(ctx, rng, n, kx, rel, place):
    x, y, desc = data.pair(rng, n, kx, None, rel)
    dc = oracle.DC(x, y)
    d = {"n": n, "desc": desc, "place": place, "lane": ctx.lane, "x": x,
         "y": y}
    gs = []
    if place in ("end", "start"):
        gs = [guard.Guarded(x, place), guard.Guarded(y, place)]
        xa, ya = gs[0].array, gs[1].array
        ctx.ev("guarded_arrays", 2)
    else:
        xa, ya = data.layout(x, place), data.layout(y, place)
    run_ways(ctx, xa, ya, dc, d, interp=n <= 64)
    del xa, ya
    for g in gs:
        g.free()
    ctx.feat("n", n)
    ctx.ev("lane_" + ctx.lane)
    ctx.nontrivial(x, y, place)
    ctx.sample({"lane": ctx.lane, "n": n, "structure": desc, "place": place})


def k_rows(ctx, rng, k, n, place):
    xs, ys = rng.normal(size=(k, n)), rng.normal(size=(k, n)).round(1)
    dcs = [oracle.DC(a, b) for a, b in zip(xs, ys)]
    gs = []
    if place in ("end", "start"):
        gs = [guard.Guarded(xs, place), guard.Guarded(ys, place)]
        xa, ya = gs[0].array, gs[1].array
        ctx.ev("guarded_arrays", 2)
    else:
        xa, ya = data.layout(xs, place), data.layout(ys, place)
    for cm in (CM.AUTO, CM.COMPILE_CPU, CM.COMPILE_PARALLEL):
        for fn, bc in (("distance_covariance_sqr", 0),
                       ("u_distance_covariance_sqr", 1)):
            got = ctx.call("rowwise", dcor.rowwise, getattr(dcor, fn), xa,
                           ya, compile_mode=cm, rowwise_mode=RM.OPTIMIZED)
            got = np.asarray(got)
            ctx.check(got.shape == (k,), "rowwise: shape", "kernel_runs")
            for i, dc in enumerate(dcs):
                ctx.close(got[i], dc.get(bc)[0], 20 * cov_tol(dc),
                          "rowwise(%s): value" % fn, "kernel_runs", row=i,
                          k=k, n=n, place=place, lane=ctx.lane)
    del xa, ya
    for g in gs:
        g.free()
    ctx.ev("lane_" + ctx.lane)
    ctx.nontrivial(xs, ys, place)


def k_mismatch(ctx, rng, n, m, m_way, c_way):
    """Samples of different sizes: an exception, never a value."""
    gs = [guard.Guarded(rng.normal(size=n), "end"),
          guard.Guarded(rng.normal(size=m), "end")]
    x, y = gs[0].array, gs[1].array
    kw = {"method": getattr(DM, m_way), "compile_mode": getattr(CM, c_way)}
    for fn in ("distance_covariance_sqr", "u_distance_covariance_sqr",
               "distance_stats", "distance_correlation"):
        try:
            v = getattr(dcor, fn)(x, y, **kw)
        except Exception:
            ctx.ev("mismatches_refused")
        else:
            ctx.viol("%s of %s: a value for samples of different sizes"
                     % (fn, m_way), n=n, m=m, got=repr(v), way=(m_way, c_way))
    X, Y = np.array([x, x]), np.array([y, y])
    for cm in (CM.AUTO, CM.COMPILE_CPU, CM.COMPILE_PARALLEL):
        try:
            v = dcor.rowwise(dcor.distance_covariance_sqr, X, Y,
                             compile_mode=cm)
        except Exception:
            ctx.ev("mismatches_refused")
        else:
            ctx.viol("rowwise: a value for samples of different sizes", n=n,
                     m=m, got=repr(v))
    del x, y
    for g in gs:
        g.free()
    ctx.nontrivial("mismatch", n, m, m_way, c_way)


def k_extreme(ctx, rng, n, kind, c_way):
    """NaN and infinite samples: any value, no invalid access."""
    x = data.vec(rng, n, "normal")
    y = data.vec(rng, n, "ties")
    bad = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "big": 1e308,
           "sub": 5e-324}[kind]
    for v in (x, y):
        k = int(rng.integers(0, n + 1))
        v[rng.permutation(n)[:k]] = bad
    g = [guard.Guarded(x, "end"), guard.Guarded(y, "start")]
    with np.errstate(all="ignore"):
        for m in ("AVL", "MERGESORT"):
            for fn in ("distance_covariance_sqr", "distance_stats_sqr"):
                ctx.call("%s[%s,%s]" % (fn, m, c_way), getattr(dcor, fn),
                         g[0].array, g[1].array, method=getattr(DM, m),
                         compile_mode=getattr(CM, c_way))
                ctx.ev("extreme_runs")
    for v in g:
        v.free()
    ctx.nontrivial("extreme", x, y)


KINDS = {"values": k_values, "rows": k_rows, "mismatch": k_mismatch,
         "extreme": k_extreme}
PLACES = ("end", "start", "strided", "neg", "unaligned", "C")


def systematic(ctx):
    if ctx.lane != "valgrind":
        for i, n in enumerate((1000, 1024, 1025, 1500, 2047, 2049)):
            yield "values", {"n": n, "kx": ("normal", "ties")[i % 2],
                             "rel": "indep", "place": PLACES[i % 6]}
        yield "rows", {"k": 40, "n": 400, "place": "end"}
        yield "rows", {"k": 4, "n": 2049, "place": "start"}
    if ctx.lane == "valgrind":
        for n in list(range(4, 36)) + [63, 64, 65, 127, 128, 129, 200]:
            yield "values", {"n": n, "kx": data.VEC_KINDS[n % 24],
                             "rel": "indep", "place": "C"}
        for n, k in ((4, 3), (7, 5), (9, 2), (16, 4), (33, 3)):
            yield "rows", {"k": k, "n": n, "place": "C"}
        return
    sizes = list(range(4, 68)) + [127, 128, 129, 130, 255, 256, 257, 511,
                                  512, 513]
    for i, n in enumerate(sizes):
        for j in range(3):
            yield "values", {
                "n": n, "kx": data.VEC_KINDS[(i * 5 + j) % 24],
                "rel": ("indep", "perm", "same")[j],
                "place": PLACES[(i + j) % 6]}
    for n in (4, 5, 8, 9, 17, 40):
        for k in (1, 3, 8, 20):
            yield "rows", {"k": k, "n": n, "place": PLACES[(n + k) % 4]}
    for w, c in WAYS[:2] + WAYS[3:]:
        for n, m in ((4, 5), (5, 4), (8, 3), (9, 8), (16, 17), (64, 5),
                     (5, 64), (600, 512), (10, 1)):
            yield "mismatch", {"n": n, "m": m, "m_way": w, "c_way": c}
    for kind in ("nan", "inf", "-inf", "big", "sub"):
        for n in (4, 5, 9, 16, 33, 64):
            for c in ("COMPILE_CPU", "NO_COMPILE"):
                yield "extreme", {"n": n, "kind": kind, "c_way": c}


def random_case(ctx, rng):
    u = rng.random()
    if ctx.lane == "valgrind":
        return "values", {"n": data.size(rng, 4, 200),
                          "kx": str(rng.choice(data.VEC_KINDS)),
                          "rel": str(rng.choice(data.PAIRS)), "place": "C"}
    if u < 0.7:
        return "values", {"n": data.size(rng, 4, 600),
                          "kx": str(rng.choice(data.VEC_KINDS)),
                          "rel": str(rng.choice(data.PAIRS)),
                          "place": str(rng.choice(PLACES))}
    if u < 0.85:
        return "rows", {"k": int(rng.integers(1, 30)),
                        "n": data.size(rng, 4, 130),
                        "place": str(rng.choice(PLACES))}
    if u < 0.92:
        return "extreme", {"n": data.size(rng, 4, 130),
                           "kind": str(rng.choice(("nan", "inf", "-inf",
                                                   "big"))),
                           "c_way": "COMPILE_CPU"}
    n = data.size(rng, 4, 300)
    return "mismatch", {"n": n, "m": max(1, n + int(rng.choice(
        (-3, -1, 1, 2, 40)))), "m_way": str(rng.choice(("AVL", "MERGESORT"))),
        "c_way": "COMPILE_CPU"}
