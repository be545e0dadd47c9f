"""C13: t-test of distance correlation."""
import numpy as np
import scipy.special

import data
import dcor
import oracle
from common import TOL, corr_parts, dress2

LD = np.longdouble
ind = dcor.independence

data.UNITS = True


def upper_tail(t, df):
    """P(T > t) for Student's t, through the incomplete beta function."""
    h = 0.5 * scipy.special.betainc(df / 2, 0.5, df / (df + t * t))
    return h if t > 0 else 1 - h


def verify(ctx, rng, x, y, desc, dc=None):
    n = len(x)
    dc = dc or oracle.DC(x, y)
    d = {"n": n, "desc": desc, "x": x, "y": y}
    cp = corr_parts(dc, True)
    if cp is None:
        ctx.inconclusive()
    r, tol = cp
    v = LD(n) * (n - 3) / 2
    xl, yl = dress2(ctx, rng, x, y)
    s = ctx.num(ctx.call("t_statistic", ind.distance_correlation_t_statistic,
                         xl, yl), "statistic")
    t = ctx.call("t_test", ind.distance_correlation_t_test, xl, yl)
    ctx.check(ctx.num(t.statistic, "statistic") == s
              or abs(ctx.num(t.statistic, "s") - s) <= 1e-9 * abs(s),
              "statistic of the t-test differs from the t-statistic", **d)
    p = float(ctx.num(t.pvalue, "pvalue"))
    ctx.check(0 <= p <= 1, "p-value out of [0, 1]", "range", got=p, **d)
    gap = 1 - r * r
    if gap < 100 * tol or gap < 1e-9:
        # correlation one up to rounding: huge statistic, p-value zero
        if n > 4 or r > 0:
            ctx.check((s > 1e3) == (r > 0) and (p < 0.01) == (r > 0),
                      "perfect dependence is not significant", "perfect",
                      statistic=float(s), pvalue=p, **d)
        return
    want = np.sqrt(v - 1) * r / np.sqrt(gap)
    amp = np.sqrt(v - 1) * (1 / np.sqrt(gap) + r * r / gap ** 1.5)
    ctx.close(s, want, amp * tol * 2 + 1e-12, "t-statistic differs from its "
              "definition", **d)
    df = float(v - 1)
    pw = upper_tail(float(want), df)
    ctx.close(p, pw, 1e-9 + float(amp * tol * 2), "p-value is not the upper "
              "tail of Student's t with n(n-3)/2 - 1 degrees of freedom",
              "pvalues", df=df, **d)
    ctx.feat("n", n)
    ctx.nontrivial(x, y)
    ctx.sample({"n": n, "t": float(s), "pvalue": p})


def k_vars(ctx, rng, n, kx, rel):
    x, y, desc = data.pair(rng, n, kx, None, rel)
    verify(ctx, rng, x, y, desc)


def k_vecs(ctx, rng, n, p, q, dep):
    x, y = data.mat(rng, n, p, "normal"), data.mat(rng, n, q, "normal")
    y = y + dep * x[:, :1]
    ctx.feat("dims", (p, q))
    verify(ctx, rng, x, y, "vector")


def k_large(ctx, rng, n, dep):
    x = rng.normal(size=n)
    y = rng.normal(size=n) + dep * x
    if rng.integers(2):
        x = np.round(x, 1)
    verify(ctx, rng, x, y, "large", oracle.FastDC(x, y))


def k_lattice(ctx, rng, n, p, q, dep):
    xv, yv, i, j = oracle.lattice(rng, n, p, q, dep=dep, last=False)
    verify(ctx, rng, xv[i], yv[j], "lattice",
           oracle.LatticeDC(xv, yv, i, j))


def k_const(ctx, rng, n, p):
    x = data.mat(rng, n, p, "normal")
    c = np.full((n, 1), float(rng.choice((0.1, 0.0, 1e6 + 0.1))))
    for a, b in ((x, c), (c, x), (x[:, 0], c[:, 0]), (c[:, 0], x), (c, c),
                 (c.repeat(3, axis=1), x)):
        t = ctx.call("t_test", ind.distance_correlation_t_test, a, b)
        ctx.close(t.statistic, 0, 0, "statistic with a constant is not zero",
                  "constant")
        ctx.close(t.pvalue, 0.5, 1e-12, "p-value with a constant is not one "
                  "half", "constant")


KINDS = {"large": k_large, "lattice": k_lattice, "vars": k_vars, "vecs": k_vecs, "const": k_const}


def systematic(ctx):
    for n in (20000, 46400, 66000, 100000, 300000):
        for dep in (0, 0.01, 0.5):
            yield "large", {"n": n, "dep": dep}
    for n, p, q in ((4200, 2, 3), (5100, 1, 2)):
        for dep in (0, 0.1):
            yield "lattice", {"n": n, "p": p, "q": q, "dep": dep}
    for n in (700, 1100, 2100):
        for rel in ("indep", "noisy", "same"):
            yield "vars", {"n": n, "kx": "normal", "rel": rel}
    for n, p, q in ((1100, 2, 1), (700, 3, 2), (40, 300, 130)):
        for dep in (0, 1):
            yield "vecs", {"n": n, "p": p, "q": q, "dep": dep}
    yield "const", {"n": 1100, "p": 2}
    for i, n in enumerate(list(range(4, 50)) + [64, 100, 150, 300]):
        for j in range(4):
            yield "vars", {
                "n": n,
                "kx": data.GOOD_KINDS[(i + 5 * j) % len(data.GOOD_KINDS)],
                "rel": data.PAIRS[(i + 3 * j) % len(data.PAIRS)]}
        for p, q in ((1, 1), (2, 3), (10, 10), (50, 20)):
            yield "vecs", {"n": n, "p": p, "q": q,
                           "dep": (0, 0.5, 2)[i % 3]}
    for n in (4, 5, 10, 40):
        for p in (1, 3):
            yield "const", {"n": n, "p": p}


def random_case(ctx, rng):
    if rng.random() < 0.5:
        return "vars", {"n": data.size(rng, 4, 300),
                        "kx": str(rng.choice(data.GOOD_KINDS)),
                        "rel": str(rng.choice(data.PAIRS))}
    return "vecs", {"n": data.size(rng, 4, 120), "p": int(rng.integers(1, 30)),
                    "q": int(rng.integers(1, 30)),
                    "dep": float(rng.choice((0, 0.3, 1, 3)))}
