"""The public surface of dcor as a table of calls for the generic monitors.

``calls(rng, n)`` gives (name, function, arrays) triples; the function takes
the arrays only, every option is bound.
"""
from functools import partial

import numpy as np

import data
import dcor
from dcor import CompileMode as CM, DistanceCovarianceMethod as DM, \
    RowwiseMode as RM

ESTIMATORS = (
    "distance_covariance_sqr", "u_distance_covariance_sqr",
    "distance_covariance", "distance_stats_sqr", "u_distance_stats_sqr",
    "distance_stats", "distance_correlation_sqr",
    "u_distance_correlation_sqr", "distance_correlation",
    "distance_correlation_af_inv_sqr", "distance_correlation_af_inv",
)
FAST = (("AVL", "COMPILE_CPU"), ("AVL", "NO_COMPILE"), ("AVL", "AUTO"),
        ("MERGESORT", "COMPILE_CPU"), ("MERGESORT", "NO_COMPILE"),
        ("AUTO", "AUTO"), ("NAIVE", "AUTO"))
ROW = ("distance_covariance_sqr", "u_distance_covariance_sqr",
       "distance_covariance", "distance_correlation_sqr",
       "u_distance_correlation_sqr", "distance_correlation")


def proj(f, a, b):
    return f(a)(b)


def flat(res):
    """A result as a tuple of arrays."""
    if isinstance(res, dcor.Stats):
        return tuple(np.asarray(v) for v in (
            res.covariance_xy, res.correlation_xy, res.variance_x,
            res.variance_y))
    if isinstance(res, dcor.HypothesisTest):
        return np.asarray(res.pvalue), np.asarray(res.statistic)
    return (np.asarray(res),)


def same(a, b):
    """Bit-identical results?"""
    a, b = flat(a), flat(b)
    return len(a) == len(b) and all(
        u.shape == v.shape and u.dtype == v.dtype
        and u.tobytes() == v.tobytes() for u, v in zip(a, b))


def close(a, b, rtol=1e-9):
    a, b = flat(a), flat(b)
    if len(a) != len(b):
        return False
    for u, v in zip(a, b):
        if u.shape != v.shape:
            return False
        if u.size and not np.allclose(u.astype(float), v.astype(float),
                                      rtol=rtol, atol=rtol *
                                      (1 + np.nanmax(np.abs(
                                          v.astype(float)))),
                                      equal_nan=True):
            return False
    return True


def made(test, make, kw, *arrays):
    """A test with a generator made for this call."""
    return test(*arrays, random_state=make(), **kw)


def extra_calls(rng, n, x, y):
    """Options and number types that the main table leaves out; the names
    with [warn] have an exponent that causes a warning."""
    out = []
    ind, hom = dcor.independence, dcor.homogeneity
    seed = int(rng.integers(2**31))
    ints = (rng.integers(-9, 10, size=n), rng.integers(-9, 10, size=n))
    for a in ints:
        a[:2] = -3, 4
    for f in ESTIMATORS:
        g = getattr(dcor, f)
        for t in ("int64", "int32", "float32", "uint8"):
            out.append(("%s[%s]" % (f, t), g, tuple(
                (abs(a) if t == "uint8" else a).astype(t) for a in ints)))
        out.append(("%s[mixed types]" % f, g, (ints[0], y)))
        out.append(("%s[columns]" % f, g, (x[:, None], y[:, None])))
        out.append(("%s[same]" % f, partial(one_array, g), (x,)))
        if "af_inv" not in f:
            out.append(("%s[exp 0.5]" % f, partial(g, exponent=0.5),
                        (x, y)))
            out.append(("%s[warn]" % f, partial(g, exponent=2), (x, y)))
    z = data.vec(rng, n, "normal")
    for f in ("partial_distance_covariance", "partial_distance_correlation"):
        out.append((f + "[1d]", getattr(dcor, f), (x, y, z)))
        out.append((f + "[int]", getattr(dcor, f), ints + (z,)))
    for e in (0.5, 1.5):
        out.append(("energy_distance[1d, %s]" % e, partial(
            dcor.energy_distance, exponent=e), (x, z[:-1])))
    out += [
        ("energy_distance[warn]", partial(dcor.energy_distance, exponent=2),
         (x, z)),
        ("energy_distance[median]", partial(
            dcor.energy_distance, average=np.median), (x, z[:-1])),
        ("energy_distance[int]", dcor.energy_distance, ints),
        ("energy_test_statistic[U]", partial(
            hom.energy_test_statistic, estimation_stat="U"), (x, z)),
        ("pairwise_distances(x)[1d]", dcor.distances.pairwise_distances,
         (x[:, None],)),
        ("pairwise_distances[int]", dcor.distances.pairwise_distances,
         (ints[0][:, None], ints[1][:-1, None])),
        ("distance_correlation_t_test[1d]", ind.distance_correlation_t_test,
         (x, y)),
        ("distance_correlation_t_statistic[int]",
         ind.distance_correlation_t_statistic, ints),
    ]
    k = {"num_resamples": 7}
    for nm, make in (("RandomState", partial(np.random.RandomState, seed)),
                     ("Generator", partial(np.random.default_rng, seed))):
        out += [
            ("distance_covariance_test[%s]" % nm, partial(
                made, ind.distance_covariance_test, make, k), (x, y)),
            ("partial_distance_covariance_test[%s]" % nm, partial(
                made, ind.partial_distance_covariance_test, make, k),
             (x, y, z)),
            ("energy_test[%s]" % nm, partial(
                made, hom.energy_test, make, dict(
                    k, estimation_stat="U")), (x, z[:-1], y)),
        ]
    out += [
        ("distance_covariance_test[warn]", partial(
            ind.distance_covariance_test, exponent=2, num_resamples=5,
            random_state=seed), (x, y)),
        ("distance_covariance_test[R=0]", ind.distance_covariance_test,
         (x, y)),
    ]
    r, s = np.stack([x, y, z]), np.stack([y, z, x])
    out += [
        ("rowwise(energy_distance)", partial(
            dcor.rowwise, dcor.energy_distance), (r, s)),
        ("rowwise(distance_stats)", partial(
            rowstats, dcor.distance_stats_sqr), (r, s)),
        ("rowwise(exp)", partial(dcor.rowwise, dcor.distance_correlation,
                                 exponent=0.5), (r, s)),
        ("rowwise(int)", partial(dcor.rowwise, dcor.distance_correlation),
         (np.stack(ints), np.stack(ints[::-1]))),
        ("rowwise(float32)", partial(dcor.rowwise, dcor.distance_correlation),
         (np.stack(ints).astype("f4"), np.stack(ints[::-1]).astype("f4"))),
    ]
    return out


def one_array(f, a):
    return f(a, a)


def rowstats(f, r, s):
    return np.asarray([v.covariance_xy for v in dcor.rowwise(f, r, s)])


def calls(rng, n, which=None, vectors=True, rows=True, tests=True,
          interp=True, extra=True):
    """Deterministic calls over the whole public API."""
    out = []
    kx = str(rng.choice(("normal", "ties", "heavy", "blocks", "ramp")))
    x = data.vec(rng, n, kx)
    y = data.vec(rng, n, "normal") + 0.5 * x / (np.std(x) or 1)
    seed = int(rng.integers(2**31))
    for f in ESTIMATORS:
        for m, c in FAST:
            if c == "NO_COMPILE" and not interp:
                continue
            out.append(("%s[%s,%s]" % (f, m, c), partial(
                getattr(dcor, f), method=getattr(DM, m),
                compile_mode=getattr(CM, c)), (x, y)))
    if vectors:
        p, q = int(rng.integers(2, 4)), int(rng.integers(1, 4))
        X, Y = data.mat(rng, n, p, "normal"), data.mat(rng, n, q, "corr")
        Z = data.mat(rng, n, 2, "normal")
        for f in ESTIMATORS:
            if "af_inv" in f and n <= p + 1:
                continue
            out.append((f + "[vec]", getattr(dcor, f), (X, Y)))
            if "af_inv" not in f:
                out.append((f + "[exp]", partial(
                    getattr(dcor, f), exponent=1.5), (X, Y)))
        W = data.mat(rng, n + 3, p, "normal")
        A, B = (np.sqrt(((v[:, None] - v[None]) ** 2).sum(-1))
                for v in (X, Z))
        UA, UB = dcor.u_centered(A), dcor.u_centered(B)
        out += [
            ("pairwise_distances(x)", dcor.distances.pairwise_distances,
             (X,)),
            ("pairwise_distances(x, y)", dcor.distances.pairwise_distances,
             (X, W)),
            ("pairwise_distances[exp]", partial(
                dcor.distances.pairwise_distances, exponent=0.5), (X, W)),
            ("double_centered", dcor.double_centered, (A,)),
            ("u_centered", dcor.u_centered, (A,)),
            ("mean_product", dcor.mean_product, (A, B)),
            ("u_product", dcor.u_product, (UA, UB)),
            ("u_projection", partial(proj, dcor.u_projection), (UA, UB)),
            ("u_complementary_projection", partial(
                proj, dcor.u_complementary_projection), (UA, UB)),
            ("partial_distance_covariance", dcor.partial_distance_covariance,
             (X, Y, Z)),
            ("partial_distance_correlation",
             dcor.partial_distance_correlation, (X, Y, Z)),
            ("energy_distance", dcor.energy_distance, (X, W)),
            ("energy_distance[U]", partial(
                dcor.energy_distance, estimation_stat="U"), (X, W)),
            ("energy_test_statistic",
             dcor.homogeneity.energy_test_statistic, (X, W)),
            ("distance_correlation_t_statistic",
             dcor.independence.distance_correlation_t_statistic, (X, Y)),
            ("distance_correlation_t_test",
             dcor.independence.distance_correlation_t_test, (X, Y)),
        ]
        if tests:
            t = {"num_resamples": 9, "random_state": seed}
            out += [
                ("distance_covariance_test", partial(
                    dcor.independence.distance_covariance_test, **t),
                 (X, Y)),
                ("partial_distance_covariance_test", partial(
                    dcor.independence.partial_distance_covariance_test,
                    **t), (X, Y, Z)),
                ("energy_test", partial(dcor.homogeneity.energy_test, **t),
                 (X, W, X[: max(2, n // 2)] + 0.25)),
            ]
    if rows:
        k = int(rng.integers(2, 7))
        R, S = rng.normal(size=(k, n)), rng.normal(size=(k, n))
        S += R
        for f in ROW:
            for cm in ("AUTO", "COMPILE_CPU", "COMPILE_PARALLEL"):
                out.append(("rowwise(%s)[%s]" % (f, cm), partial(
                    dcor.rowwise, getattr(dcor, f), compile_mode=getattr(
                        CM, cm), rowwise_mode=RM.OPTIMIZED), (R, S)))
        out.append(("rowwise(naive)", partial(
            dcor.rowwise, dcor.distance_correlation, rowwise_mode=RM.NAIVE),
            (R, S)))
    if extra:
        out += extra_calls(rng, n, x, y)
    if which:
        out = [c for c in out if which(c[0])]
    return out
