"""C10: energy distance and homogeneity statistic."""
import numpy as np

import data
import dcor
import oracle
from dcor import EstimationStatistic as ES

LD = np.longdouble
V_FORMS = (None, "v", "V", "v_statistic", "V_STATISTIC", ES.V_STATISTIC)
U_FORMS = ("u", "U", "u_statistic", "U_Statistic", ES.U_STATISTIC)

data.UNITS = True


def trimmed(v):
    v = np.sort(np.asarray(v).ravel())
    k = v.size // 10
    return v[k:v.size - k].mean() if v.size > 2 * k else v.mean()


AVERAGES = {
    "default": (None, None),
    "mean": (np.mean, None),
    "median": (np.median, lambda v: np.median(np.asarray(v, LD))),
    "trimmed": (trimmed, lambda v: trimmed(np.asarray(v, LD))),
    "max": (np.max, np.max),
}


def kw_for(rng, stat, avg, e):
    kw = {}
    form = (V_FORMS if stat == "V" else U_FORMS)
    form = form[int(rng.integers(len(form)))]
    if form is not None:
        kw["estimation_stat"] = form
    if AVERAGES[avg][0] is not None:
        kw["average"] = AVERAGES[avg][0]
    if e != 1 or rng.integers(2):
        kw["exponent"] = e
    return kw


def samples(rng, sizes, p, kind):
    base = [data.mat(rng, n, p, kind) if p else data.vec(rng, n, kind)
            for n in sizes]
    return [b + i * 0.3 * np.std(b) for i, b in enumerate(base)]


def k_two(ctx, rng, n, m, p, e, stat, avg, kind):
    x, y = samples(rng, (n, m), p, kind)
    if rng.integers(4) == 0 and m == n:
        y = rng.permutation(x)
    kw = kw_for(rng, stat, avg, e)
    want = oracle.energy(x, y, e, stat, AVERAGES[avg][1])
    mx = max(oracle.dist(x, y, e).max(), oracle.dist(x, exponent=e).max(),
             oracle.dist(y, exponent=e).max())
    tol = 1e-12 * mx * 4 + LD(1e-300)
    d = {"exponent": e, "stat": stat, "average": avg, "x": x, "y": y}
    xl = data.layout(x, str(rng.choice(data.LAYOUTS)))
    yl = data.layout(y, str(rng.choice(data.LAYOUTS)))
    if rng.integers(4) == 0:
        xl, yl = data.shared(rng, x, y)
    if p == 1 and rng.integers(2):
        xl = xl[:, 0]
    g = ctx.call("energy_distance", dcor.energy_distance, xl, yl, **kw)
    g = ctx.close(g, want, tol, "energy_distance differs from its "
                  "definition", **d)
    s = ctx.call("energy_distance", dcor.energy_distance, yl, xl, **kw)
    ctx.close(s, want, tol, "energy_distance is not symmetric", **d)
    if stat == "V" and avg in ("default", "mean"):
        ctx.check(g >= -tol, "energy_distance (V) is negative", "range",
                  got=float(g), **d)
        z = ctx.call("energy_distance", dcor.energy_distance, xl,
                     rng.permutation(x), **kw)
        ctx.close(z, 0, tol, "energy_distance of a sample with itself is not "
                  "zero", **d)
    coef = LD(n) * LD(m) / LD(n + m)
    t = ctx.call("energy_test_statistic",
                 dcor.homogeneity.energy_test_statistic, xl, yl, **kw)
    ctx.close(t, coef * want, coef * tol, "energy_test_statistic is not "
              "nm/(n+m) times the energy distance", **d)
    r = ctx.call("energy_test", dcor.homogeneity.energy_test, xl, yl, **kw)
    ctx.close(r.statistic, coef * want, coef * tol, "statistic of "
              "energy_test differs from energy_test_statistic", **d)
    # the very same object twice
    own = oracle.energy(x, x, e, stat, AVERAGES[avg][1])
    half = LD(n) / 2
    for obj in (xl, x):
        g = ctx.call("energy_distance", dcor.energy_distance, obj, obj, **kw)
        ctx.close(g, own, tol, "energy_distance of a sample with itself "
                  "differs from its definition", **d)
        t = ctx.call("energy_test_statistic",
                     dcor.homogeneity.energy_test_statistic, obj, obj, **kw)
        ctx.close(t, half * own, half * tol, "energy_test_statistic of a "
                  "sample with itself differs from its definition", **d)
        r = ctx.call("energy_test", dcor.homogeneity.energy_test, obj, obj,
                     **kw)
        ctx.close(r.statistic, half * own, half * tol, "energy_test of a "
                  "sample with itself differs from its definition", **d)
    ctx.feat("average", avg)
    ctx.feat("stat", stat)
    ctx.feat("exponent", float(e))
    if mx > 0:
        ctx.nontrivial(x, y, e, stat, avg)
    ctx.sample({"n": n, "m": m, "p": p, "energy": float(want)})


def k_many(ctx, rng, sizes, p, e, stat, avg, kind):
    xs = samples(rng, sizes, p, kind)
    if len(xs) > 2 and rng.integers(3) == 0:
        i, j = (int(v) for v in rng.permutation(len(xs))[:2])
        xs[i] = xs[j]
        sizes = list(sizes)
        sizes[i] = sizes[j]
        ctx.feat("repeated_sample", "same object")
    kw = kw_for(rng, stat, avg, e)
    want, scale = LD(0), LD(0)
    for i in range(len(xs)):
        for j in range(i + 1, len(xs)):
            n, m = sizes[i], sizes[j]
            c = LD(n) * LD(m) / LD(n + m)
            want += c * oracle.energy(xs[i], xs[j], e, stat,
                                      AVERAGES[avg][1])
            scale += 4 * c * max(oracle.dist(xs[i], xs[j], e).max(),
                                 oracle.dist(xs[i], exponent=e).max(),
                                 oracle.dist(xs[j], exponent=e).max())
    r = ctx.call("energy_test", dcor.homogeneity.energy_test, *xs, **kw)
    d = {"sizes": sizes, "p": p, "exponent": e, "stat": stat, "average": avg}
    ctx.close(r.statistic, want, 1e-12 * scale + LD(1e-300),
              "statistic of energy_test is not the sum over all pairs of "
              "samples", **d)
    o = [int(v) for v in rng.permutation(len(xs))]
    r = ctx.call("energy_test", dcor.homogeneity.energy_test,
                 *[xs[i] for i in o], **kw)
    ctx.close(r.statistic, want, 1e-12 * scale + LD(1e-300),
              "statistic of energy_test depends on the order of the samples",
              **d)
    ctx.feat("n_samples", len(sizes))
    ctx.nontrivial(*xs, e, stat, avg)


def k_lattice(ctx, rng, n, m, p, e, stat):
    """Large samples with few distinct points."""
    v = rng.normal(size=(40, p))
    v[-1] += 5
    sizes = (n, m)
    idx = [rng.integers(0, 39, size=k) for k in sizes]
    idx[1] = np.where(rng.random(m) < 0.2, idx[1] % 7, idx[1])
    for u in idx:
        u[-1] = 39
    d = oracle.dist(v, exponent=e)
    w = [np.bincount(u, minlength=40).astype(LD) for u in idx]

    def av(a, b, same):
        t = a @ d @ b
        return t / (a.sum() * (a.sum() - 1) if same and stat == "U"
                    else a.sum() * b.sum())
    want = 2 * av(*w, False) - av(w[0], w[0], True) - av(w[1], w[1], True)
    tol = 1e-11 * d.max()
    kw = kw_for(rng, stat, "default", e)
    x, y = v[idx[0]], v[idx[1]]
    dd = {"exponent": e, "stat": stat, "n": n, "m": m, "p": p}
    g = ctx.call("energy_distance", dcor.energy_distance, x, y, **kw)
    ctx.close(g, want, tol, "energy_distance of large samples differs from "
              "its definition", **dd)
    coef = LD(n) * LD(m) / LD(n + m)
    t = ctx.call("energy_test_statistic",
                 dcor.homogeneity.energy_test_statistic, x, y, **kw)
    ctx.close(t, coef * want, coef * tol, "energy_test_statistic is not "
              "nm/(n+m) times the energy distance", **dd)
    if n + m < 6000:
        r = ctx.call("energy_test", dcor.homogeneity.energy_test, x, y, **kw)
        ctx.close(r.statistic, coef * want, coef * tol, "statistic of "
                  "energy_test differs from energy_test_statistic", **dd)
    ctx.feat("n", (n, m))
    ctx.nontrivial(x, y, e, stat)


KINDS = {"lattice": k_lattice, "two": k_two, "many": k_many}
MK = ("normal", "int", "dups", "offset", "heavy", "grid", "scales")
VK = ("normal", "ties", "two", "heavy", "bigint", "offset", "tiny", "ramp")


def systematic(ctx):
    for n, m, p in ((4200, 300, 2), (200, 5100, 1), (3000, 2900, 3),
                    (5100, 4200, 1)):
        for stat, e in (("V", 1), ("U", 1), ("U", 0.5)):
            yield "lattice", {"n": n, "m": m, "p": p, "e": e, "stat": stat}
    for n, m, p in ((2100, 40, 1), (40, 2100, 2), (1100, 1300, 3),
                    (30, 20, 200)):
        for stat in ("V", "U"):
            yield "two", {"n": n, "m": m, "p": p, "e": 1, "stat": stat,
                          "avg": "default", "kind": "normal"}
            yield "two", {"n": n, "m": m, "p": p, "e": 1.5, "stat": stat,
                          "avg": "mean", "kind": "normal"}
    for sizes in ([400, 300, 500], [3] * 16, list(range(2, 24)),
                  [600, 2, 600]):
        for stat in ("V", "U"):
            yield "many", {"sizes": sizes, "p": 2, "e": 1, "stat": stat,
                           "avg": "default", "kind": "normal"}
    i = 0
    for n, m in ((2, 2), (2, 3), (3, 2), (4, 4), (5, 9), (9, 5), (16, 16),
                 (33, 7), (40, 41)):
        for p in (0, 1, 2, 4):
            for stat in ("V", "U"):
                for e in (1, 0.5, 1.5, 1.003):
                    i += 1
                    yield "two", {
                        "n": n, "m": m, "p": p, "e": e, "stat": stat,
                        "avg": tuple(AVERAGES)[i % len(AVERAGES)],
                        "kind": (MK if p else VK)[i % 7]}
    for a in AVERAGES:
        for stat in ("V", "U"):
            for e in (1, 1.9):
                yield "two", {"n": 12, "m": 7, "p": 2, "e": e, "stat": stat,
                              "avg": a, "kind": "normal"}
                yield "many", {"sizes": [6, 3, 9], "p": 2, "e": e,
                               "stat": stat, "avg": a, "kind": "normal"}
    for sizes in ([2, 2], [5, 5, 5], [3, 8, 2, 6], [10, 2, 3, 7, 4],
                  [2, 3, 4, 5, 6, 7, 8], [1, 4, 1], [30, 1, 20]):
        for p in (0, 1, 3):
            for stat in ("V", "U"):
                if stat == "U" and min(sizes) < 2:
                    continue
                yield "many", {"sizes": sizes, "p": p, "e": 1, "stat": stat,
                               "avg": "default",
                               "kind": "int" if p else "ties"}
                yield "many", {"sizes": sizes, "p": p, "e": 0.7,
                               "stat": stat, "avg": "mean",
                               "kind": "normal"}
    yield "two", {"n": 1, "m": 5, "p": 2, "e": 1, "stat": "V",
                  "avg": "default", "kind": "normal"}
    yield "two", {"n": 1, "m": 1, "p": 1, "e": 1, "stat": "V",
                  "avg": "default", "kind": "normal"}
    yield "two", {"n": 600, "m": 450, "p": 2, "e": 1, "stat": "U",
                  "avg": "default", "kind": "normal"}
    yield "two", {"n": 300, "m": 700, "p": 1, "e": 1.2, "stat": "V",
                  "avg": "median", "kind": "heavy"}


def random_case(ctx, rng):
    e = float(rng.choice((1, 0.5, 1.5, rng.uniform(0.05, 1.95))))
    e = 1 if e == 1 else e
    stat = str(rng.choice(("V", "U")))
    avg = str(rng.choice(tuple(AVERAGES)))
    p = int(rng.integers(0, 6))
    kind = str(rng.choice(MK if p else VK))
    if rng.random() < 0.6:
        return "two", {"n": data.size(rng, 2, 100),
                       "m": data.size(rng, 2, 100), "p": p, "e": e,
                       "stat": stat, "avg": avg, "kind": kind}
    k = int(rng.integers(2, 7))
    return "many", {"sizes": [int(v) for v in rng.integers(2, 20, size=k)],
                    "p": p, "e": e, "stat": stat, "avg": avg, "kind": kind}
