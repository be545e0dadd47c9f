"""C22: the tests keep their level under the null and have power."""
import itertools

import numpy as np
from scipy import stats

import dcor
import permtest as pt

IND, HOM = dcor.independence, dcor.homogeneity
R = 19
# Probability with which a correct test may be called wrong, per case.
ALARM = 1e-12


def draw(rng, n, p, law):
    if law == "normal":
        return rng.normal(size=(n, p))
    if law == "heavy":
        return rng.standard_t(2, size=(n, p))
    if law == "skewed":
        return rng.exponential(size=(n, p)) ** 2
    if law == "mixture":
        return rng.normal(size=(n, p)) + 30 * rng.integers(
            0, 2, size=(n, p))
    if law == "offset":
        return rng.uniform(size=(n, p)) + 1e4
    raise KeyError(law)


LAWS = ("normal", "heavy", "skewed", "mixture", "offset")


def state(rng):
    s = int(rng.integers(2**31))
    return (s, np.random.RandomState(s), np.random.default_rng(s))[
        int(rng.integers(3))]


def null_test(rng, which, n, p, law, e):
    kw = {"num_resamples": R, "random_state": state(rng)}
    if e != 1:
        kw["exponent"] = e
    if which == "dcov":
        return IND.distance_covariance_test(
            draw(rng, n, p, law), draw(rng, n, 1, law), **kw)
    if which == "pdcov":
        return IND.partial_distance_covariance_test(
            draw(rng, n, p, law), draw(rng, n, 1, law), draw(rng, n, 1, law),
            **kw)
    if which == "energy":
        return HOM.energy_test(draw(rng, n // 2, p, law),
                               draw(rng, n - n // 2, p, law), **kw)
    if which == "energyU":
        return HOM.energy_test(
            draw(rng, n // 2, p, law), draw(rng, n - n // 2, p, law),
            estimation_stat="u_statistic", **kw)
    return HOM.energy_test(*(draw(rng, n // 3 + i, p, law)
                             for i in range(3)), **kw)


def k_null(ctx, rng, which, n, p, law, e=1, reps=300):
    """The p-value is uniform on {1, ..., R + 1} / (R + 1) (no ties)."""
    counts = np.zeros(R + 1, dtype=int)
    for _ in range(reps):
        res = ctx.call(which, null_test, rng, which, n, p, law, e)
        k = float(res.pvalue) * (R + 1)
        i = round(k)
        ctx.check(abs(k - i) < 1e-6 and 1 <= i <= R + 1, "%s: p-value out of "
                  "its grid" % which, "null_tests", pvalue=float(res.pvalue))
        counts[i - 1] += 1
    exceed = stats.chisquare(counts).pvalue
    ctx.check(exceed > ALARM, "%s: p-values are not uniform under the null "
              "hypothesis" % which, "batches", counts=counts.tolist(),
              chi2_pvalue=float(exceed), n=n, law=law)
    # Level at every alpha, and the opposite (uselessly large p-values).
    c = np.cumsum(counts)
    for a in range(1, R + 1):
        f = a / (R + 1)
        hi = stats.binom.sf(c[a - 1] - 1, reps, f)
        lo = stats.binom.cdf(c[a - 1], reps, f)
        ctx.check(hi > ALARM, "%s: rejects a true null hypothesis too often"
                  % which, "levels", alpha=f, rejected=int(c[a - 1]),
                  tests=reps)
        ctx.check(lo > ALARM, "%s: p-values too large under the null "
                  "hypothesis" % which, "levels", alpha=f,
                  rejected=int(c[a - 1]), tests=reps)
    tot = ctx.__dict__.setdefault("null_counts", {})
    tot[which] = tot.get(which, 0) + counts
    ctx.feat("null", (which, law, p))
    ctx.nontrivial(which, n, p, law, e, int(rng.integers(2**40)))
    ctx.sample({"test": which, "law": law, "pvalue_histogram":
                counts.tolist()})


def k_power(ctx, rng, which, form):
    """Strong alternatives: every one of them is detected."""
    n = 60
    kw = {"num_resamples": 99, "random_state": state(rng)}
    x = rng.uniform(-1, 1, size=(n, 1))
    eps = 0.02 * rng.normal(size=(n, 1))
    if which in ("dcov", "pdcov"):
        y = {"linear": x, "negative": -3 * x, "square": x**2,
             "abs": np.abs(x), "cube": x**3, "sign": np.sign(x),
             "circle": np.sqrt(1 - x**2) * np.sign(rng.normal(
                 size=(n, 1)))}[form] + eps
        if form == "circle":
            x, y = np.hstack([x, x**2]), y**2 + eps
        if which == "dcov":
            res = ctx.call(which, IND.distance_covariance_test, x, y, **kw)
        else:
            z = rng.normal(size=(n, 1))
            res = ctx.call(which, IND.partial_distance_covariance_test, x, y,
                           z, **kw)
    else:
        a = rng.normal(size=(n, 2))
        b = {"linear": rng.normal(size=(n, 2)) + 1.5,
             "negative": rng.normal(size=(n, 2)) - 1.5,
             "square": 4 * rng.normal(size=(n, 2)),
             "abs": 4 + np.abs(rng.normal(size=(n, 2))),
             "cube": rng.normal(size=(n, 2)) * 0.1,
             "sign": 2 * np.sign(rng.normal(size=(n, 2))) + 3,
             "circle": rng.exponential(size=(n, 2)) + 2}[form]
        xs = [a, b] if which == "energy" else [a, rng.normal(size=(n, 2)), b]
        res = ctx.call(which, HOM.energy_test, *xs, **kw)
    # With these effects and sizes, p > 0.2 has negligible probability.
    ctx.check(float(res.pvalue) <= 0.2, "%s: a strong alternative (%s) is "
              "not detected" % (which, form), "alternatives",
              pvalue=float(res.pvalue), statistic=float(res.statistic))
    ctx.check(float(res.statistic) > 0, "%s: statistic of a strong "
              "alternative is not positive" % which, "alternatives")
    ctx.feat("alternative", (which, form))
    ctx.nontrivial(which, form, int(rng.integers(2**40)))


def k_effective(ctx, rng, sizes, reps=60):
    """The permutations that act on the data are uniform.

    Observed through the user's ``average`` callback, which sees the permuted
    blocks: it does not matter how the permutations are drawn.
    """
    n = sum(sizes)
    pts = np.cumsum(2.0 ** np.arange(n))[:, None]
    assert len(np.unique(np.abs(pts - pts.T)[np.triu_indices(n, 1)])) == \
        n * (n - 1) // 2
    dist = {abs(float(pts[i, 0] - pts[j, 0])): (i, j)
            for i in range(n) for j in range(n) if i != j}
    e = np.cumsum([0] + sizes)
    args = [pts[e[i]:e[i + 1]] for i in range(len(sizes))]
    where = np.zeros((n, len(sizes)), dtype=int)
    total = 0
    for _ in range(reps):
        blocks = []

        def average(v):
            blocks.append(np.array(v))
            return np.mean(v)
        ctx.call("energy_test", HOM.energy_test, *args, num_resamples=20,
                 random_state=state(rng), average=average)
        for b in blocks:
            ctx.ev("blocks_observed")
            if b.ndim != 2 or b.shape[0] != b.shape[1] or b.diagonal().any():
                continue
            # A diagonal block: the points of one group.
            off = b[~np.eye(len(b), dtype=bool)]
            pairs = [dist.get(abs(float(v))) for v in off]
            if None in pairs:
                ctx.viol("energy_test: a within-sample distance is not a "
                         "distance of the pooled sample", block=b)
            pts_in = {i for q in pairs for i in q}
            if len(pts_in) != len(b) and len(b) > 1:
                ctx.viol("energy_test: a permuted group repeats or loses "
                         "instances", block=b)
            g = sizes.index(len(b)) if len(b) in sizes else None
            if g is None:
                ctx.viol("energy_test: a permuted group has another size",
                         sizes=sizes, got=len(b))
            for i in pts_in:
                where[i, g] += 1
            total += 1
    if total == 0:
        ctx.inconclusive()
    ctx.ev("groups_decoded", total)
    # Expected: group g holds point i with probability sizes[g] / n, apart
    # from the first, observed, arrangement (removed by its known share).
    for g, s in enumerate(sizes):
        m = where[:, g].sum() / s  # groups of this size seen
        # Each permuted group is independent given the resample; every group
        # appears in (number of groups - 1) comparisons.
        k = len(sizes) - 1
        draws = m / k - reps
        if draws < 50:
            continue
        cnt = where[:, g] / k
        cnt = cnt - reps * ((np.arange(n) >= e[g]) & (np.arange(n)
                                                      < e[g + 1]))
        f = s / n
        z = (cnt - draws * f) / np.sqrt(draws * f * (1 - f))
        ctx.mx("inclusion_z", np.abs(z).max())
        ctx.check(np.abs(z).max() < 8, "energy_test: the instances are not "
                  "permuted uniformly", "inclusion", counts=cnt.tolist(),
                  expected=float(draws * f), group=g)
    ctx.nontrivial("effective", sizes, int(rng.integers(2**40)))


def k_decoded(ctx, rng, sizes, num, reps=2):
    """Every permutation that acted on the data, decoded and judged.

    Point i lies on axis i at a distance of its own from the origin, so a
    block of distances tells which points it holds and in which order.
    """
    n = sum(sizes)
    if n < 600:
        a = np.sqrt(np.arange(1, n + 1, dtype=float))
        pts = np.diag(a)
    else:
        # integers on a line, all of whose differences are different
        for _ in range(20):
            v = np.sort(rng.integers(0, 2**51, size=n))
            ii, jj = np.triu_indices(n, 1)
            gap = v[jj] - v[ii]
            order = np.argsort(gap)
            gap, ii, jj = gap[order], ii[order], jj[order]
            if (np.diff(gap) > 0).all() and gap[0] > 0:
                break
        else:
            ctx.inconclusive()
        pts = v[:, None].astype(float)
    e = np.cumsum([0] + sizes)
    args = [pts[e[i]:e[i + 1]] for i in range(len(sizes))]

    def decode(b):
        i = np.arange(len(b))
        j, k = (i + 1) % len(b), (i + 2) % len(b)
        if n < 600:
            sq = b.astype(float) ** 2
            return np.rint((sq[i, j] + sq[i, k] - sq[j, k]) / 2
                           ).astype(int) - 1
        both = []
        for other in (j, k):
            w = np.rint(b[i, other]).astype(np.int64)
            at = np.minimum(np.searchsorted(gap, w), len(gap) - 1)
            if (gap[at] != w).any():
                ctx.inconclusive()
            both.append((ii[at], jj[at]))
        (p0, p1), (q0, q1) = both
        return np.where((p0 == q0) | (p0 == q1), p0, p1)

    seen = []
    for _ in range(reps):
        blocks = []

        def average(v):
            blocks.append(np.array(v))
            return np.mean(v)
        ctx.call("energy_test", HOM.energy_test, *args, num_resamples=num,
                 random_state=state(rng), average=average)
        own = [b for b in blocks if b.ndim == 2 and b.shape[0] == b.shape[1]
               and not b.diagonal().any()]
        ctx.ev("blocks_observed", len(blocks))
        # arrangements: two groups, each seen once per statistic
        if len(own) != 2 * (num + 1):
            ctx.inconclusive()
        for q in range(0, len(own), 2):
            seen.append(np.concatenate([decode(own[q]), decode(own[q + 1])]))
    first = np.arange(n)
    ident = [p for p in seen if (p == first).all()]
    if len(ident) < reps:
        ctx.inconclusive()  # observed in another order than assumed
    perms = [p for p in seen if not (p == first).all()]
    ctx.ev("permutations_decoded", len(perms))
    for p in perms:
        ctx.check((np.sort(p) == first).all(), "energy_test: a resample "
                  "repeats or loses instances", "complete", got=p)
    ctx.check(len(ident) == reps and len({p.tobytes() for p in perms})
              == num * reps, "energy_test: permutations are repeated",
              "fresh", distinct=len({p.tobytes() for p in perms}),
              resamples=num * reps, n=n)
    m = np.array(perms)
    t = len(m)
    pos = np.arange(n)
    # every statistic below: mean and variance under uniform permutations
    for f, name in ((np.abs(m - pos).mean(axis=1), "displacement"),
                    ((m == pos).sum(axis=1), "fixed points"),
                    (np.abs(np.diff(m, axis=1)).mean(axis=1), "neighbours"),
                    ((m[:, 1:] > m[:, :-1]).mean(axis=1), "ascents"),
                    ((m * pos).mean(axis=1), "correlation"),
                    ((m[:, :sizes[0]] < sizes[0]).sum(axis=1), "first group"),
                    (m[:, 0], "first"), (m[:, -1], "last")):
        base = REFERENCE(n, sizes[0], name)
        z = (f.mean() - base[0]) / (base[1] / np.sqrt(t))
        ctx.mx("permutation_z", abs(z))
        ctx.check(abs(z) < 9, "energy_test: the permutations are not uniform "
                  "(%s)" % name, "uniformity", mean=float(f.mean()),
                  expected=base[0], n=n, resamples=t)
    ctx.nontrivial("decoded", sizes, num, int(rng.integers(2**40)))


def REFERENCE(n, s, name):
    """Mean and standard deviation for uniform permutations."""
    if (n, s) not in _REF:
        g = np.random.default_rng(n * 1000003 + s)
        m = np.array([g.permutation(n) for _ in range(4000)])
        pos = np.arange(n)
        r = {"displacement": np.abs(m - pos).mean(axis=1),
             "fixed points": (m == pos).sum(axis=1),
             "neighbours": np.abs(np.diff(m, axis=1)).mean(axis=1),
             "ascents": (m[:, 1:] > m[:, :-1]).mean(axis=1),
             "correlation": (m * pos).mean(axis=1),
             "first group": (m[:, :s] < s).sum(axis=1)}
        out = {k: (float(v.mean()), float(v.std())) for k, v in r.items()}
        out["displacement"] = ((n * n - 1) / (3.0 * n),
                               out["displacement"][1])
        out["fixed points"] = (1.0, 1.0)
        out["neighbours"] = ((n + 1) / 3.0, out["neighbours"][1])
        out["ascents"] = (0.5, out["ascents"][1])
        out["correlation"] = (((n - 1) / 2.0) ** 2, out["correlation"][1])
        out["first group"] = (s * s / n, out["first group"][1])
        out["first"] = out["last"] = ((n - 1) / 2.0, n / np.sqrt(12.0))
        _REF[n, s] = out
    return _REF[n, s][name]


_REF = {}


def k_precision(ctx, rng, which, n, num, reps):
    """With R resamples, k is binomial: R draws, the exact p-value of the
    sample (all n! permutations enumerated)."""
    x, y, z = (rng.normal(size=(n, 1)) for _ in range(3))
    test = {"dcov": lambda: pt.Dcov(x, y),
            "pdcov": lambda: pt.Pdcov(x, y, z),
            "energy": lambda: pt.Energy([x[:n // 2], y[n // 2:]])}[which]()
    if test.degenerate:
        ctx.inconclusive()
    t0 = test.stat()
    ts = np.array([test.stat(list(p)) for p in
                   itertools.permutations(range(n))])
    tol = 1e-9 * test.scale
    hi = float((ts > t0 + tol).mean())
    ties = float((np.abs(ts - t0) <= tol).mean())
    ks = []
    for _ in range(reps):
        res = ctx.call(which, test.run, num_resamples=num,
                       random_state=state(rng))
        ks.append(round(float(res.pvalue) * (num + 1)) - 1)
    ks = np.array(ks)
    ctx.ev("large_resample_tests", reps)
    ctx.ev("resamples_drawn", int(reps * num))
    # ties fall on either side by rounding: only a range is claimed
    lo_z = (ks - num * hi) / np.sqrt(num * max(hi * (1 - hi), 1e-3))
    ctx.check(lo_z.min() > -9, "%s: too few resamples above the observed "
              "statistic" % which, "precision", ks=ks.tolist(), exact=hi)
    q = min(hi + ties, 1)
    hi_z = (ks - num * q) / np.sqrt(num * max(q * (1 - q), 1e-3))
    ctx.check(hi_z.max() < 9, "%s: too many resamples above the observed "
              "statistic" % which, "precision", ks=ks.tolist(), exact=q)
    # dispersion around the own mean; ties add at most their own share
    var = max(num * q * (1 - q), num * hi * (1 - hi)) + num * ties
    d = ((ks - ks.mean()) ** 2).sum() / max(var, 1)
    sf = float(stats.chi2.sf(d, reps - 1))
    ctx.mx("dispersion", d / (reps - 1))
    ctx.check(sf > 1e-10, "%s: the resamples of a test are not independent "
              "of each other" % which, "precision", ks=ks.tolist(),
              dispersion=float(d / (reps - 1)), resamples=num)
    ctx.nontrivial("precision", which, num, int(rng.integers(2**40)))


def k_constant(ctx, rng, which, num):
    """All permuted statistics equal the observed one: no evidence at all."""
    n = 12
    c = np.full((n, 1), float(rng.integers(-3, 4)))
    y = rng.normal(size=(n, 1))
    kw = {"num_resamples": num, "random_state": state(rng)}
    if which == "dcov":
        res = ctx.call(which, IND.distance_covariance_test, c, y, **kw)
    elif which == "pdcov":
        res = ctx.call(which, IND.partial_distance_covariance_test, c, y,
                       rng.normal(size=(n, 1)), **kw)
    else:
        res = ctx.call(which, HOM.energy_test, c, c.copy(), **kw)
    p = float(res.pvalue)
    ctx.ev("constant_samples")
    if p == 1:
        return
    low = abs(p * (num + 1) - 1) < 1e-9
    ctx.viol("%s: identical statistics taken as evidence against the null "
             "hypothesis" % which, key="constant-%s-%s" % (
                 which, "smallest-pvalue" if low else "other"), pvalue=p,
             resamples=num)


KINDS = {"null": k_null, "power": k_power, "effective": k_effective,
         "constant": k_constant, "decoded": k_decoded,
         "precision": k_precision}
NULLS = ("dcov", "pdcov", "energy", "energyU", "energy3")
FORMS = ("linear", "negative", "square", "abs", "cube", "sign", "circle")


def systematic(ctx):
    # The longest cases first.
    for w in ("dcov", "pdcov", "energy"):
        yield "precision", {"which": w, "n": 6, "num": 7001, "reps": 16}
        if ctx.thorough:
            yield "precision", {"which": w, "n": 7, "num": 30001,
                                "reps": 20}
            yield "precision", {"which": w, "n": 6, "num": 1201,
                                "reps": 200}
    for s, r in (([12, 13], 300), ([40, 60], 100), ([150, 90], 40),
                 ([300, 230], 12), ([20, 30], 2500), ([700, 500], 10),
                 ([900, 1300], 6)):
        yield "decoded", {"sizes": s, "num": r}
    if ctx.thorough:
        yield "decoded", {"sizes": [2200, 2500], "num": 5}
        yield "decoded", {"sizes": [16, 18], "num": 12000}
    for i, w in enumerate(NULLS):
        for j, law in enumerate(LAWS):
            yield "null", {"which": w, "n": 18 + i, "p": 1 + (i + j) % 3,
                           "law": law}
        yield "null", {"which": w, "n": 20, "p": 2, "law": "normal",
                       "e": 0.7}
    for w in ("dcov", "pdcov", "energy", "energy3"):
        for f in FORMS:
            yield "power", {"which": w, "form": f}
    for s in ([4, 5], [3, 6], [2, 3, 5], [6, 7]):
        yield "effective", {"sizes": s}
    for w in ("dcov", "pdcov", "energy"):
        for num in (1, 9, 199):
            yield "constant", {"which": w, "num": num}


def random_case(ctx, rng):
    u = rng.random()
    if u < 0.6:
        return "null", {"which": str(rng.choice(NULLS)),
                        "n": int(rng.integers(18, 30)),
                        "p": int(rng.integers(1, 4)),
                        "law": str(rng.choice(LAWS)),
                        "e": float(rng.choice((1, 1, 0.5, 1.4)))}
    if u < 0.9:
        return "power", {"which": str(rng.choice(
            ("dcov", "pdcov", "energy", "energy3"))),
            "form": str(rng.choice(FORMS))}
    s = sorted(set(int(v) for v in rng.integers(2, 8, size=3)))
    return "effective", {"sizes": s if len(s) > 1 else [3, 5]}


def finish(ctx):
    """All the batches of this process together."""
    for which, counts in getattr(ctx, "null_counts", {}).items():
        q = float(stats.chisquare(counts).pvalue)
        ctx.check(q > ALARM, "%s: p-values are not uniform under the null "
                  "hypothesis (all batches)" % which, "batches",
                  counts=counts.tolist(), chi2_pvalue=q)
