"""C11: permutation tests: statistic and p-value."""
import warnings

import numpy as np

import data
import dcor
import permtest as pt
from props.c10 import AVERAGES

LD = np.longdouble

data.UNITS = True


def build(rng, which, n, p, e, kind, extra=None):
    extra = extra or {}
    if which == "dcov":
        x = data.mat(rng, n, p, kind) if p else data.vec(rng, n, "normal")
        y = data.mat(rng, n, max(1, p), kind)
        dep = float(rng.choice([0, 0.2, 1.0]))
        y = y + dep * (x if x.shape == y.shape else x.reshape(n, -1)[:, :1])
        return pt.Dcov(x, y, e)
    if which == "pdcov":
        x, y, z = (data.mat(rng, n, max(1, p), k)
                   for k in (kind, "normal", "normal"))
        dep = float(rng.choice([0, 0.3]))
        return pt.Pdcov(x + z, y + dep * x - z, z, e)
    sizes = extra.get("sizes") or [n // 2, n - n // 2]
    xs = [data.mat(rng, s, max(1, p), kind) for s in sizes]
    sh = float(rng.choice([0, 0.2, 0.7]))
    xs = [v + sh * i for i, v in enumerate(xs)]
    a, ra = AVERAGES[extra.get("avg", "default")]
    return pt.Energy(xs, e, extra.get("stat", "V"), a, ra)


def judge(ctx, test, res, perms, R, tol, exact, d):
    p = ctx.num(res.pvalue, "pvalue")
    ctx.check(isinstance(res, dcor.HypothesisTest),
              "result is not a HypothesisTest")
    t0, sure, maybe = pt.bounds(test, perms, tol)
    ctx.ev("permutations_replayed", len(perms))
    ctx.close(res.statistic, t0, tol if tol else 0, "%s: statistic is wrong"
              % test.name, **d)
    k = p * (R + 1)
    ctx.check(abs(k - round(float(k))) < 1e-6, "%s: p-value is not a "
              "multiple of 1/(R+1)" % test.name, "pvalues",
              pvalue=float(p), R=R, **d)
    k = round(float(k))
    ctx.check(1 <= k <= R + 1, "%s: p-value out of [1/(R+1), 1]" % test.name,
              "pvalues", pvalue=float(p), R=R, **d)
    ctx.check(sure + 1 <= k <= maybe + 1, "%s: p-value is not (1 + number of "
              "permuted statistics above the observed one) / (R + 1)"
              % test.name, "pvalues", pvalue=float(p), R=R,
              above=(sure, maybe), **d)
    if sure == maybe:
        ctx.ev("pvalues_decided_exactly")
    ctx.mx("resamples", R)
    ctx.feat("pvalue", round(float(p), 2))


def k_test(ctx, rng, which, n, p, e, R, rs, kind="normal", extra=None,
           n_jobs=1):
    test = build(rng, which, n, p, e, kind, extra)
    if test.degenerate:
        ctx.inconclusive()
    rec = pt.recorder(rs, int(rng.integers(1, 2**31)))
    d = {"which": which, "n": n, "exponent": e, "rng": rs, "extra": extra,
         "args": [np.asarray(a) for a in test.args]}
    kw = {} if R == 0 and rng.integers(2) else {"num_resamples": R}
    if n_jobs != 1:
        kw["n_jobs"] = n_jobs
    res = ctx.call(test.name, test.run, random_state=rec, **kw)
    perms = rec.log
    ctx.ev("permutations_recorded", len(perms))
    if R and not perms:
        ctx.inconclusive()  # drawn in a way the recorder does not see
    if len(perms) < R:
        ctx.viol("%s: fewer permutations drawn than requested" % test.name,
                 drawn=len(perms), R=R, **d)
    perms = perms[:R]
    for q in perms:
        ctx.check(sorted(q.tolist()) == list(range(test.size)),
                  "not a permutation of the instances", "permutations")
    judge(ctx, test, res, perms, R, 1e-11 * test.scale, False, d)
    ctx.feat("test", (which, rs))
    ctx.nontrivial(which, e, R, *[np.asarray(a) for a in test.args])
    ctx.sample({"test": which, "n": n, "R": R, "pvalue": float(res.pvalue)})


def k_seed(ctx, rng, which, n, p, e, R, kind="normal", extra=None):
    """random_state given as an int: RandomState(seed).permutation."""
    test = build(rng, which, n, p, e, kind, extra)
    if test.degenerate:
        ctx.inconclusive()
    seed = int(rng.integers(0, 2**31))
    res = ctx.call(test.name, test.run, num_resamples=R, random_state=seed)
    rs = np.random.RandomState(seed)
    perms = [rs.permutation(test.size) for _ in range(R)]
    judge(ctx, test, res, perms, R, 1e-11 * test.scale, False,
          {"which": which, "n": n, "seed": seed})
    ctx.nontrivial(which, seed, R)


def k_exact(ctx, rng, which, n, R, rs, mode):
    """Data for which the arithmetic is exact: ties decide exactly."""
    if which == "dcov":
        x = rng.integers(0, 2 if mode == "binary" else 5, size=n) * 1.0
        y = rng.integers(0, 2 if mode == "binary" else 4, size=n) * 1.0
        test = pt.Dcov(x, y)
    elif which == "pdcov":
        n = 4 if n <= 8 else 5
        x = rng.integers(0, 3, size=n) * 12.0
        y = rng.integers(0, 3, size=n) * 12.0
        test = pt.Pdcov(x[:, None], y[:, None], np.full((n, 1), 3.0))
    else:
        h = n // 2
        x = rng.integers(0, 2 if mode == "binary" else 5, size=h) * 1.0
        y = rng.integers(0, 3, size=h) * 1.0
        test = pt.Energy([x, y])
    script = None
    if mode == "identity":
        script = [np.arange(test.size)]
    elif mode == "swaps":
        # transpositions of equal and different instances
        script = []
        for _ in range(max(R, 1)):
            q = np.arange(test.size)
            i, j = rng.integers(0, test.size, size=2)
            q[i], q[j] = q[j], q[i]
            script.append(q)
    rec = pt.recorder(rs, int(rng.integers(1, 2**31)), script)
    res = ctx.call(test.name, test.run, num_resamples=R, random_state=rec)
    ctx.ev("permutations_recorded", len(rec.log))
    if not rec.log:
        ctx.inconclusive()
    if len(rec.log) < R:
        ctx.viol("%s: fewer permutations drawn than requested" % test.name,
                 drawn=len(rec.log), R=R)
    # The reference divides in extended precision: half an ulp of slack far
    # below the grid on which these statistics live.
    tol = 1e-9
    t0 = test.stat()
    ts = np.array([test.stat(q) for q in rec.log[:R]] or [t0 - 1],
                  dtype=LD)
    ties = int((np.abs(ts - t0) <= tol).sum())
    ctx.ev("exact_ties", ties)
    above = int((ts > t0 + tol).sum())
    k = round(float(ctx.num(res.pvalue, "pvalue")) * (R + 1))
    # Both conventions for ties (see the known finding of C22), nothing else.
    ctx.check(k in (above + 1, above + ties + 1), "%s: with exact arithmetic "
              "the p-value is not (1 + number above) / (R + 1)" % test.name,
              "pvalues", pvalue=float(res.pvalue), above=above, ties=ties,
              R=R, mode=mode, args=[np.asarray(a) for a in test.args])
    ctx.nontrivial(which, mode, R, *[np.asarray(a) for a in test.args])


def k_object(ctx, rng, which):
    """The result object: names, alias and unpacking order."""
    test = build(rng, which, 8, 1, 1, "normal")
    R = int(rng.integers(0, 12))
    res = ctx.call(test.name, test.run, num_resamples=R, random_state=3)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.check(res.p_value == res.pvalue, "p_value is not pvalue",
                  "object")
        a, b = res
        ctx.check(a == res.pvalue and b == res.statistic and len(res) == 2,
                  "HypothesisTest unpacks in another order", "object")
    if R == 0:
        ctx.check(res.pvalue == 1, "p-value without resamples is not one",
                  "object")
    # random_state None: still a valid p-value
    res = ctx.call(test.name, test.run, num_resamples=7)
    k = float(res.pvalue) * 8
    ctx.check(abs(k - round(k)) < 1e-9 and 1 <= round(k) <= 8,
              "p-value out of its grid", "object", got=float(res.pvalue))


KINDS = {"test": k_test, "seed": k_seed, "exact": k_exact,
         "object": k_object}
TESTS = ("dcov", "pdcov", "energy")
GEN = ("RandomState", "Generator")


def systematic(ctx):
    for w in TESTS:
        for rs in GEN:
            for n in (4, 5, 6, 7, 9, 12, 16, 25):
                for R in (0, 1, 2, 5, 19, 40):
                    yield "test", {"which": w, "n": n, "p": 1 + n % 3, "e": 1,
                                   "R": R, "rs": rs}
            for e in (0.5, 1.5, 1.004):
                yield "test", {"which": w, "n": 14, "p": 2, "e": e, "R": 30,
                               "rs": rs}
            for m in ("binary", "small", "identity", "swaps"):
                for n in (4, 8, 16, 32):
                    for R in (1, 9, 50):
                        yield "exact", {"which": w, "n": n, "R": R, "rs": rs,
                                        "mode": m}
        for k in ("int", "dups", "offset", "heavy"):
            yield "test", {"which": w, "n": 15, "p": 2, "e": 1, "R": 60,
                           "rs": "RandomState", "kind": k}
        yield "test", {"which": w, "n": 12, "p": 1, "e": 1, "R": 1500,
                       "rs": "RandomState"}
        yield "test", {"which": w, "n": 120, "p": 2, "e": 1, "R": 40,
                       "rs": "RandomState"}
        yield "test", {"which": w, "n": 8, "p": 1, "e": 1, "R": 5003,
                       "rs": "Generator"}
        yield "test", {"which": w, "n": 400, "p": 2, "e": 1, "R": 9,
                       "rs": "RandomState"}
        yield "test", {"which": w, "n": 1100, "p": 1, "e": 1, "R": 3,
                       "rs": "Generator"}
        if w != "pdcov":
            yield "test", {"which": w, "n": 2100, "p": 2, "e": 1, "R": 2,
                           "rs": "RandomState"}
            yield "test", {"which": w, "n": 4200, "p": 1, "e": 1, "R": 1,
                           "rs": "Generator"}
        if ctx.thorough:
            yield "test", {"which": w, "n": 6, "p": 1, "e": 1, "R": 20001,
                           "rs": "RandomState"}
            yield "test", {"which": w, "n": 2100, "p": 1, "e": 1, "R": 3,
                           "rs": "Generator"}
        for n in (6, 11):
            yield "seed", {"which": w, "n": n, "p": 1, "e": 1, "R": 25}
            yield "seed", {"which": w, "n": n, "p": 1, "e": 1, "R": 150}
        for _ in range(3):
            yield "object", {"which": w}
    for sizes in ([2, 3], [7, 3], [1, 6], [4, 4, 4], [3, 6, 2], [2, 5, 3, 4],
                  [5, 2, 2, 3, 4]):
        for st in ("V", "U"):
            if st == "U" and min(sizes) < 2:
                continue
            for avg in ("default", "median", "trimmed"):
                yield "test", {"which": "energy", "n": 0, "p": 2, "e": 1,
                               "R": 30, "rs": "RandomState",
                               "extra": {"sizes": sizes, "stat": st,
                                         "avg": avg}}


def random_case(ctx, rng):
    w = str(rng.choice(TESTS))
    u = rng.random()
    extra = {}
    if w == "energy" and rng.integers(2):
        extra = {"sizes": [int(v) for v in rng.integers(
            2, 12, size=int(rng.integers(2, 5)))],
            "stat": str(rng.choice(("V", "U"))),
            "avg": str(rng.choice(("default", "mean", "median")))}
    if u < 0.6:
        return "test", {
            "which": w, "n": data.size(rng, 4, 40),
            "p": int(rng.integers(1, 4)),
            "e": float(rng.choice((1, 1, 0.5, 1.5))),
            "R": int(rng.choice((1, 10, 40, 99, 199))),
            "rs": str(rng.choice(GEN)), "extra": extra,
            "kind": str(rng.choice(("normal", "int", "dups", "heavy")))}
    if u < 0.85:
        return "exact", {
            "which": w, "n": int(rng.choice((4, 8, 16, 32))),
            "R": int(rng.choice((1, 10, 60))), "rs": str(rng.choice(GEN)),
            "mode": str(rng.choice(("binary", "small", "swaps",
                                    "identity")))}
    return "seed", {"which": w, "n": data.size(rng, 5, 30), "p": 1,
                    "e": 1, "R": int(rng.choice((5, 30, 90))),
                    "extra": extra}
