"""C19: arrays of any namespace of the array API standard."""
import warnings

import array_api_strict as xp
import numpy as np

import api
import data
import dcor
import oracle
from common import TOL, corr_parts, cov_tol
from dcor import DistanceCovarianceMethod as DM, RowwiseMode as RM

IND = dcor.independence
HOM = dcor.homogeneity
SA = type(xp.asarray([1.0]))


def back(ctx, v, what, typed=True):
    """A result as NumPy; its type must be the one of the inputs."""
    if typed:
        ctx.check(isinstance(v, SA), "%s: the result is not an array of the "
                  "namespace of the inputs" % what, "types",
                  got=type(v).__name__)
    return np.asarray(v, dtype=float)


def strict(a):
    return xp.asarray(np.ascontiguousarray(a))


def compare(ctx, name, fs, fn, args, tol, typed=True, **kw):
    """Same call on strict arrays and on NumPy arrays."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = ctx.call(name + " (array API)", fn, *(strict(a) for a in args),
                       **kw)
    ctx.check(not [v for v in w if v.category is DeprecationWarning],
              "%s: standard arrays are called non-arrays" % name, "warned")
    want = fn(*args, **kw)
    if isinstance(want, dcor.Stats):
        for k in ("covariance_xy", "correlation_xy", "variance_x",
                  "variance_y"):
            g = back(ctx, getattr(got, k), name)
            ctx.allclose(g, np.asarray(getattr(want, k)), tol, "%s.%s "
                         "differs between namespaces" % (name, k), **fs)
    elif isinstance(want, dcor.HypothesisTest):
        g = back(ctx, got.statistic, name, typed)
        ctx.allclose(g, np.asarray(want.statistic), tol, "%s: statistic "
                     "differs between namespaces" % name, **fs)
        ctx.check(abs(float(got.pvalue) - float(want.pvalue)) <= 1e-9
                  + (fs.get("ptol") or 0), "%s: p-value differs between "
                  "namespaces" % name, "compared", got=float(got.pvalue),
                  want=float(want.pvalue))
    else:
        g = back(ctx, got, name, typed)
        ctx.allclose(g, np.asarray(want), tol, "%s differs between "
                     "namespaces" % name, **fs)
    ctx.feat("function", name)


def k_estimators(ctx, rng, n, p, q, e):
    x = data.mat(rng, n, p, "normal") if p else data.vec(rng, n, "normal")
    y = data.mat(rng, n, q, "corr") if q else data.vec(rng, n, "heavy")
    if rng.integers(3) == 0:
        x, y = np.round(x), np.round(y, 1)
    dc = oracle.DC(x, y, exponent=e)
    kw = {} if e == 1 else {"exponent": e}
    fs = {"n": n, "p": p, "q": q, "e": e}
    for f in api.ESTIMATORS:
        bc = f.startswith("u_")
        if "af_inv" in f:
            if e != 1 or n <= max(p, q) + 2:
                continue
            if min(np.linalg.eigvalsh(np.atleast_2d(np.cov(
                    v, rowvar=False)))[0] for v in (x, y)) < 1e-3:
                continue
        cp = corr_parts(dc, bc)
        if cp is None or (cp[1] > 1e-7 and "covariance" not in f):
            ctx.ev("degenerate_correlations_skipped")
            continue
        if "covariance" in f:
            tol = 20 * cov_tol(dc)
        else:
            tol = 1e-8 + 40 * TOL * max(dc.mx, dc.my) ** 2
        if not (bc or f.endswith("sqr")):
            # compare through the squares: see common.sq
            tol = np.sqrt(tol)
        for m in (DM.AUTO, DM.NAIVE, "naive"):
            compare(ctx, f, fs, getattr(dcor, f), (x, y), tol, method=m,
                    **({} if "af_inv" in f else kw))
    # against the definition, not only against NumPy
    v = dcor.distance_covariance_sqr(strict(x), strict(y), **kw)
    ctx.close(back(ctx, v, "distance_covariance_sqr"), dc.cov,
              20 * cov_tol(dc), "distance_covariance_sqr of standard arrays "
              "differs from the definition", **fs)
    ctx.nontrivial("est", x, y, e)
    ctx.sample({"n": n, "p": p, "q": q, "exponent": e})


def k_matrices(ctx, rng, n, p, e):
    X, Y = data.mat(rng, n, p, "normal"), data.mat(rng, n + 2, p, "int")
    kw = {} if e == 1 else {"exponent": e}
    pd = dcor.distances.pairwise_distances
    s = 1e-10 * (1 + float(oracle.dist(X, Y, e).max())) ** 2
    compare(ctx, "pairwise_distances(x)", {"n": n}, pd, (X,), s, **kw)
    compare(ctx, "pairwise_distances(x, y)", {"n": n}, pd, (X, Y), s, **kw)
    A = np.asarray(oracle.dist(X), dtype=float)
    B = np.asarray(oracle.dist(Y[:n]), dtype=float)
    compare(ctx, "double_centered", {"n": n}, dcor.double_centered, (A,), s)
    compare(ctx, "u_centered", {"n": n}, dcor.u_centered, (A,), s)
    compare(ctx, "mean_product", {"n": n}, dcor.mean_product, (A, B), s)
    UA, UB = dcor.u_centered(A), dcor.u_centered(B)
    compare(ctx, "u_product", {"n": n}, dcor.u_product, (UA, UB), s)
    if abs(dcor.u_product(UA, UA)) > 1e-3:
        for f in ("u_projection", "u_complementary_projection"):
            compare(ctx, f, {"n": n}, lambda a, b, _f=getattr(dcor, f):
                    _f(a)(b), (UA, UB), 1e4 * s)
    compare(ctx, "u_projection(0)", {"n": n}, lambda a, b:
            dcor.u_projection(a)(b), (np.zeros((n, n)), UB), s)
    # out=
    for f in (dcor.double_centered, dcor.u_centered):
        a, out = strict(A), strict(np.zeros((n, n)))
        r = ctx.call("out", f, a, out=out)
        ctx.check(r is out, "out is not returned", "types")
        ctx.allclose(np.asarray(out), f(A), s, "out= differs")
        ctx.allclose(np.asarray(a), A, 0, "out= changed the argument")
    ctx.nontrivial("mat", X, Y, e)


def k_energy(ctx, rng, n, m, p, e, stat):
    X, Y = data.mat(rng, n, p, "normal"), data.mat(rng, m, p, "normal") + .3
    if p == 1 and rng.integers(2):
        X, Y = X[:, 0], Y[:, 0]
    kw = {} if e == 1 else {"exponent": e}
    if stat != "V":
        kw["estimation_stat"] = stat
    fs = {"n": n, "m": m, "stat": stat}
    s = 1e-9 * (n + m)
    compare(ctx, "energy_distance", fs, dcor.energy_distance, (X, Y), s,
            **kw)
    compare(ctx, "energy_test_statistic", fs, HOM.energy_test_statistic,
            (X, Y), s, **kw)
    compare(ctx, "energy_test", fs, HOM.energy_test, (X, Y), s, **kw)
    if e == 1:
        compare(ctx, "energy_test", fs, HOM.energy_test, (X, Y, X[:4] + 1),
                s, num_resamples=12, random_state=int(rng.integers(2**31)),
                **kw)
    ctx.nontrivial("energy", X, Y, stat, e)


def k_tests(ctx, rng, n, R):
    X, Y = data.mat(rng, n, 2, "normal"), data.mat(rng, n, 3, "normal")
    Z = data.mat(rng, n, 1, "normal")
    kw = {"num_resamples": R, "random_state": int(rng.integers(2**31))}
    s = 1e-8 * n
    fs = {"n": n, "R": R}
    compare(ctx, "distance_covariance_test", fs,
            IND.distance_covariance_test, (X, Y), s, **kw)
    if n > 5:
        compare(ctx, "partial_distance_covariance_test", fs,
                IND.partial_distance_covariance_test, (X, Y, Z), 1e-6 * n,
                **kw)
        compare(ctx, "partial_distance_covariance", fs,
                dcor.partial_distance_covariance, (X, Y, Z), 1e-6)
        compare(ctx, "partial_distance_correlation", fs,
                dcor.partial_distance_correlation, (X, Y, Z), 1e-5,
                typed=False)
        compare(ctx, "distance_correlation_t_statistic", fs,
                IND.distance_correlation_t_statistic, (X, Y), 1e-5,
                typed=False)
        compare(ctx, "distance_correlation_t_test", fs,
                IND.distance_correlation_t_test, (X, Y), 1e-5, typed=False,
                )
    ctx.nontrivial("tests", X, Y)


def k_rowwise(ctx, rng, k, n, p):
    xs = [data.mat(rng, n, p, "normal") for _ in range(k)]
    ys = [data.mat(rng, n, p, "normal") for _ in range(k)]
    for f in ("distance_covariance", "distance_correlation_sqr",
              "u_distance_covariance_sqr"):
        got = ctx.call("rowwise", dcor.rowwise, getattr(dcor, f),
                       [strict(v) for v in xs], [strict(v) for v in ys],
                       rowwise_mode=RM.NAIVE)
        want = [getattr(dcor, f)(a, b) for a, b in zip(xs, ys)]
        ctx.allclose(np.asarray(got, dtype=float), np.array(want), 1e-8,
                     "rowwise of standard arrays differs")
    ctx.nontrivial("rowwise", *xs)


KINDS = {"estimators": k_estimators, "matrices": k_matrices,
         "energy": k_energy, "tests": k_tests, "rowwise": k_rowwise}


def systematic(ctx):
    for n in (300, 1100):
        for p, q in ((0, 0), (2, 1)):
            yield "estimators", {"n": n, "p": p, "q": q, "e": 1}
        yield "matrices", {"n": n, "p": 2, "e": 1}
        yield "tests", {"n": n, "R": 4}
        for st in ("U", "V"):
            yield "energy", {"n": n, "m": 200, "p": 2, "e": 1, "stat": st}
    for n in (4, 5, 6, 9, 16, 33):
        for p, q in ((0, 0), (1, 1), (2, 3), (1, 2), (0, 2), (4, 1)):
            yield "estimators", {"n": n, "p": p, "q": q, "e": 1}
        for e in (0.5, 1.5):
            yield "estimators", {"n": n, "p": 2, "q": 2, "e": e}
            yield "estimators", {"n": n, "p": 0, "q": 0, "e": e}
            yield "matrices", {"n": n, "p": 2, "e": e}
        yield "matrices", {"n": n, "p": 3, "e": 1}
        yield "matrices", {"n": n, "p": 1, "e": 1}
        for st in ("V", "U", "u_statistic"):
            for p in (1, 2):
                for e in (1, 1.5):
                    yield "energy", {"n": n, "m": n + 3, "p": p, "e": e,
                                     "stat": st}
        for R in (0, 1, 20):
            yield "tests", {"n": n, "R": R}
        yield "rowwise", {"k": 3, "n": n, "p": 2}


def random_case(ctx, rng):
    u = rng.random()
    n = data.size(rng, 4, 50)
    e = float(rng.choice((1, 1, 0.5, 1.7)))
    if u < 0.4:
        return "estimators", {"n": n, "p": int(rng.integers(0, 4)),
                              "q": int(rng.integers(0, 4)), "e": e}
    if u < 0.6:
        return "matrices", {"n": n, "p": int(rng.integers(1, 4)), "e": e}
    if u < 0.8:
        return "energy", {"n": n, "m": data.size(rng, 4, 30),
                          "p": int(rng.integers(1, 4)), "e": e,
                          "stat": str(rng.choice(("U", "V")))}
    if u < 0.95:
        return "tests", {"n": n, "R": int(rng.choice((0, 5, 30)))}
    return "rowwise", {"k": 3, "n": n, "p": 2}
