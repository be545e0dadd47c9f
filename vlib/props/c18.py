"""C18: what is refused, what warns, what passes silently, NaN."""
import warnings

import numpy as np

import api
import data
import dcor
from dcor import CompileMode as CM, DistanceCovarianceMethod as DM, \
    RowwiseMode as RM

EST = tuple(f for f in api.ESTIMATORS)
EXP = tuple(f for f in EST if "af_inv" not in f)
IND = dcor.independence
HOM = dcor.homogeneity


def refused(ctx, what, fn, *args, types=Exception, **kw):
    """The call must raise (one of the given kinds of exception)."""
    ctx.ev("refusals_expected")
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            v = fn(*args, **kw)
        except types:
            ctx.ev("refused")
            return
        except Exception as e:
            ctx.viol("%s: refused with %s" % (what, type(e).__name__),
                     error=str(e)[:200])
    ctx.viol("%s: accepted" % what, got=repr(v)[:200],
             shapes=[np.shape(a) for a in args], kw=repr(kw)[:200])


def caught(fn, *args, **kw):
    with warnings.catch_warnings(record=True) as w, \
            np.errstate(all="warn"):
        warnings.simplefilter("always")
        v = fn(*args, **kw)
    return v, w


def k_sizes(ctx, rng, n, m, p):
    """Samples of different sizes."""
    def s(k, q):
        return rng.normal(size=(k, q)) if q else rng.normal(size=k)
    for f in EST:
        g = getattr(dcor, f)
        for meth in (DM.AUTO, DM.NAIVE) + (
                (DM.AVL, DM.MERGESORT) if p <= 1 else ()):
            for c in (CM.AUTO, CM.NO_COMPILE, CM.COMPILE_CPU):
                if c is CM.COMPILE_CPU and (p > 1 or meth is DM.NAIVE):
                    continue
                refused(ctx, "%s(%s) of samples of different sizes"
                        % (f, meth.name), g, s(n, p), s(m, p), method=meth,
                        compile_mode=c)
    for f in ("partial_distance_covariance", "partial_distance_correlation"):
        g = getattr(dcor, f)
        for k in ((n, m, n), (m, n, n), (n, n, m)):
            refused(ctx, f + " of samples of different sizes", g,
                    *(s(v, p) for v in k))
    for k in ((n, m, n), (m, n, n), (n, n, m)):
        refused(ctx, "partial_distance_covariance_test of samples of "
                "different sizes", IND.partial_distance_covariance_test,
                *(s(v, p) for v in k), num_resamples=2)
    refused(ctx, "distance_covariance_test of samples of different sizes",
            IND.distance_covariance_test, s(n, p), s(m, p), num_resamples=2)
    refused(ctx, "t test of samples of different sizes",
            IND.distance_correlation_t_test, s(n, p), s(m, p))
    refused(ctx, "t statistic of samples of different sizes",
            IND.distance_correlation_t_statistic, s(n, p), s(m, p))
    import array_api_strict as xps
    for kind, conv in (("float32", lambda a: a.astype(np.float32)),
                       ("int", lambda a: (8 * a).astype(np.int64)),
                       ("longdouble", lambda a: a.astype(np.longdouble)),
                       ("strict", xps.asarray)):
        a, b = conv(s(n, p)), conv(s(m, p))
        for f in EST:
            if "af_inv" in f and kind != "float32":
                continue
            refused(ctx, "%s of samples of different sizes (%s)" % (f, kind),
                    getattr(dcor, f), a, b)
        refused(ctx, "t statistic of samples of different sizes (%s)" % kind,
                IND.distance_correlation_t_statistic, a, b)
        refused(ctx, "distance_covariance_test of samples of different "
                "sizes (%s)" % kind, IND.distance_covariance_test, a, b)
        ctx.feat("type_of_sizes", kind)
    if p <= 1:
        for a, b in ((s(n, 0), s(m, 1)), (s(n, 1), s(m, 0))):
            for f in EST:
                refused(ctx, f + " of a vector and a column of different "
                        "sizes", getattr(dcor, f), a, b)
    ctx.nontrivial("sizes", n, m, p)


def k_dims(ctx, rng, n, m, p, q):
    """Points of different dimension."""
    x, y = rng.normal(size=(n, p)), rng.normal(size=(m, q))
    if p == 1 and rng.integers(2):
        x = x[:, 0]
    if q == 1 and rng.integers(2):
        y = y[:, 0]
    for what, f in (("pairwise_distances",
                     dcor.distances.pairwise_distances),
                    ("energy_distance", dcor.energy_distance),
                    ("energy_test_statistic", HOM.energy_test_statistic),
                    ("energy_test", HOM.energy_test)):
        refused(ctx, "%s of points of different dimension" % what, f, x, y)
    refused(ctx, "energy_test of points of different dimension",
            HOM.energy_test, x, x, y)
    # the same for the types that other code computes
    import array_api_strict as xps
    from fractions import Fraction
    obj = np.vectorize(lambda v: Fraction(int(v * 64), 64), otypes=[object])
    for kind, conv in (("longdouble", lambda a: a.astype(np.longdouble)),
                       ("object", obj),
                       ("strict", xps.asarray),
                       ("float32", lambda a: a.astype(np.float32)),
                       ("int", lambda a: (8 * a).astype(np.int64)),
                       ("mixed", None)):
        if kind == "mixed":
            u, v = x.astype(np.longdouble), y
        elif conv is None:
            continue
        else:
            u, v = conv(x), conv(y)
        for what, f in (("pairwise_distances",
                         dcor.distances.pairwise_distances),
                        ("energy_distance", dcor.energy_distance),
                        ("energy_test_statistic", HOM.energy_test_statistic),
                        ("energy_test", HOM.energy_test)):
            refused(ctx, "%s of points of different dimension (%s)"
                    % (what, kind), f, u, v)
            refused(ctx, "%s of points of different dimension (%s)"
                    % (what, kind), f, v, u)
        ctx.feat("type_of_points", kind)
    ctx.nontrivial("dims", n, m, p, q)


def k_options(ctx, rng, n):
    x, y = rng.normal(size=n), rng.normal(size=n)
    X, Y = rng.normal(size=(n, 2)), rng.normal(size=(n, 3))
    for f in EST:
        g = getattr(dcor, f)
        for meth in ("AVL", "MERGESORT"):
            for form in (getattr(DM, meth), meth, meth.lower()):
                if f in EXP:
                    for e in (0.5, 1.5, 2, 0, 1.0001):
                        refused(ctx, "%s(%s) with exponent %s" % (f, meth, e),
                                g, x, y, method=form, exponent=e)
                for a, b in ((X, Y), (x, Y), (X, y)):
                    refused(ctx, "%s(%s) of random vectors" % (f, meth), g,
                            a, b, method=form)
            refused(ctx, "%s(%s) compiled in parallel" % (f, meth), g, x, y,
                    method=getattr(DM, meth),
                    compile_mode=CM.COMPILE_PARALLEL,
                    types=NotImplementedError)
        for c in (CM.COMPILE_CPU, CM.COMPILE_PARALLEL):
            refused(ctx, "%s(NAIVE) compiled" % f, g, x, y, method=DM.NAIVE,
                    compile_mode=c, types=NotImplementedError)
            refused(ctx, "%s of vectors compiled" % f, g, X, Y,
                    compile_mode=c, types=NotImplementedError)
        refused(ctx, "%s compiled in parallel" % f, g, x, y,
                compile_mode=CM.COMPILE_PARALLEL, types=NotImplementedError)
        for bad in ("foo", "", "avl ", "merge", "fast"):
            refused(ctx, "%s with the method %r" % (f, bad), g, x, y,
                    method=bad)
        refused(ctx, f + " of a 3-dimensional array", g,
                rng.normal(size=(n, 2, 2)), Y)
        refused(ctx, f + " of a 3-dimensional array", g, x,
                rng.normal(size=(n, 1, 2)))
    for bad in ("foo", "W", "", "biased"):
        for f in (dcor.energy_distance, HOM.energy_test_statistic,
                  HOM.energy_test):
            refused(ctx, "estimation_stat=%r" % bad, f, X, X + 1.0,
                    estimation_stat=bad)
    refused(ctx, "distances of a 3-dimensional array",
            dcor.distances.pairwise_distances, rng.normal(size=(n, 2, 2)))
    refused(ctx, "energy of a 3-dimensional array", dcor.energy_distance,
            rng.normal(size=(n, 2, 2)), rng.normal(size=(n, 2, 2)))
    for T in (rng.normal(size=(n, 2, 2)), rng.normal(size=(n, 1, 1))):
        for f in (dcor.partial_distance_covariance,
                  dcor.partial_distance_correlation,
                  IND.partial_distance_covariance_test):
            for args in ((T, X, Y), (X, T, Y), (X, Y, T)):
                refused(ctx, f.__name__ + " of a 3-dimensional array", f,
                        *args)
        for f in (IND.distance_covariance_test,
                  IND.distance_correlation_t_test,
                  IND.distance_correlation_t_statistic,
                  dcor.distances.pairwise_distances,
                  HOM.energy_test_statistic, HOM.energy_test,
                  dcor.energy_distance) + tuple(
                      getattr(dcor, g) for g in EST):
            for args in ((T, X), (X, T), (T, T)):
                refused(ctx, f.__name__ + " of a 3-dimensional array", f,
                        *args)
    for f in EST:
        g = getattr(dcor, f)
        for bad in ("foo", None, 7, DM.AUTO, "AUTO"):
            for a, b in ((x, y), (X, Y)):
                refused(ctx, "%s with the compile mode %r" % (f, bad), g, a,
                        b, compile_mode=bad)
        for bad in (None, 7, CM.AUTO, RM.AUTO):
            refused(ctx, "%s with the method %r" % (f, bad), g, x, y,
                    method=bad)
    k = 3
    for f in api.ROW:
        g = getattr(dcor, f)
        A, B = rng.normal(size=(k, n, 2)), rng.normal(size=(k, n, 2))
        refused(ctx, "optimised rowwise of random vectors", dcor.rowwise, g,
                A, B, rowwise_mode=RM.OPTIMIZED, types=NotImplementedError)
        a, b = rng.normal(size=(k, n)), rng.normal(size=(k, n))
        refused(ctx, "optimised rowwise with exponent", dcor.rowwise, g, a,
                b, rowwise_mode=RM.OPTIMIZED, exponent=1.5,
                types=NotImplementedError)
        for m in (DM.NAIVE, DM.MERGESORT):
            refused(ctx, "optimised rowwise with %s" % m.name, dcor.rowwise,
                    g, a, b, rowwise_mode=RM.OPTIMIZED, method=m,
                    types=NotImplementedError)
        refused(ctx, "optimised rowwise without compiling", dcor.rowwise, g,
                a, b, rowwise_mode=RM.OPTIMIZED,
                compile_mode=CM.NO_COMPILE, types=NotImplementedError)
    refused(ctx, "optimised rowwise of energy_distance", dcor.rowwise,
            dcor.energy_distance, A, B, rowwise_mode=RM.OPTIMIZED,
            types=NotImplementedError)
    ctx.nontrivial("options", x, y)


def k_small(ctx, rng, n):
    """AVL needs four samples."""
    for f in EXP:
        for c in (CM.AUTO, CM.NO_COMPILE, CM.COMPILE_CPU):
            refused(ctx, "%s(AVL) of %d samples" % (f, n), getattr(dcor, f),
                    rng.normal(size=n), rng.normal(size=n), method=DM.AVL,
                    compile_mode=c)
    # Unbiased estimators divide by n - 3: no number may come out.
    for f in EXP:
        if not f.startswith("u_"):
            continue
        for m, c in api.FAST:
            for a, b in ((rng.normal(size=n), rng.normal(size=n)),
                         (rng.normal(size=(n, 1)), rng.normal(size=(n, 1)))):
                with warnings.catch_warnings(), np.errstate(all="ignore"):
                    warnings.simplefilter("ignore")
                    try:
                        v = getattr(dcor, f)(a, b, method=getattr(DM, m),
                                             compile_mode=getattr(CM, c))
                    except Exception:
                        ctx.ev("refused")
                        continue
                for u in api.flat(v):
                    ctx.check(not np.isfinite(u), "%s[%s,%s]: a number for "
                              "%d samples" % (f, m, c, n), "nan_results",
                              got=repr(v)[:200])
    ctx.nontrivial("small", n)


def exponent_calls(rng, n):
    X, Y = rng.normal(size=(n, 2)), rng.normal(size=(n, 3))
    Z, W = rng.normal(size=(n, 1)), rng.normal(size=(n + 2, 2))
    out = [(f, getattr(dcor, f), (X, Y)) for f in EXP]
    out += [(f + "[NAIVE,1d]", lambda *a, _f=f, **k: getattr(dcor, _f)(
        *a, method=DM.NAIVE, **k), (X[:, 0], Y[:, 0])) for f in EXP]
    out += [(f + "[1d]", getattr(dcor, f), (X[:, 0], Y[:, 0]))
            for f in EXP]
    out += [("energy_distance", dcor.energy_distance, (X, W)),
            ("energy_test_statistic", HOM.energy_test_statistic, (X, W)),
            ("energy_test", HOM.energy_test, (X, W)),
            ("distance_covariance_test", IND.distance_covariance_test,
             (X, Y)),
            ("partial_distance_covariance_test",
             IND.partial_distance_covariance_test, (X, Y, Z))]
    return out


def k_exponent(ctx, rng, n, e):
    """Exponents outside (0, 2) warn, the others do not."""
    inside = 0 < e < 2
    for name, f, args in exponent_calls(rng, n):
        for form in (e, np.float64(e)):
            _, w = caught(f, *args, exponent=form)
            users = [v for v in w if v.category is UserWarning]
            ctx.ev("exponent_warnings_seen", len(users))
            if inside:
                ctx.check(not w, "%s warns for a valid exponent" % name,
                          "exponents", e=e, first=str(w[0].message)[:150]
                          if w else None)
            else:
                ctx.check(users, "%s does not warn for an exponent outside "
                          "(0, 2)" % name, "exponents", e=e)
    ctx.feat("exponent", e)
    ctx.nontrivial("exponent", e, n)


def k_silent(ctx, rng, n, how):
    """Valid input: no exception and no warning."""
    cs = api.calls(rng, n, lambda s: "[warn]" not in s,
                   extra=how not in ("int", "f32", "const"))
    for name, f, args in cs:
        if how == "int":
            if "u_p" in name or "u_c" in name or "product" in name \
                    or "rowwise" in name or "centered" in name:
                continue
            args = tuple(np.round(a * 5).astype(
                [np.int64, np.int32, np.int8][n % 3]) for a in args)
            if any(np.ptp(a, axis=0).min() == 0 for a in args):
                continue
        elif how == "f32":
            args = tuple(a.astype(np.float32) for a in args)
        elif how == "const":
            v = float(rng.choice((0.1, 0.0, -7.0, 1e6 + 0.1)))
            j = int(rng.integers(len(args) + 1))
            args = tuple(np.full_like(a, v) if j in (i, len(args)) else a
                         for i, a in enumerate(args))
        elif how != "C":
            args = tuple(data.layout(a, how) for a in args)
        try:
            _, w = caught(f, *args)
        except Exception as ex:
            ctx.viol("%s refused valid input (%s)" % (name, how),
                     error=repr(ex)[:300], n=n)
        ctx.check(not w, "%s warns for valid input" % name, "silent_calls",
                  n=n, how=how, first=str(w[0].message)[:200] if w else None)
        ctx.feat("function", name)
    ctx.nontrivial("silent", n, how, int(rng.integers(2**62)))


def k_nan(ctx, rng, n, who, bad):
    """NaN samples: the estimators are NaN, never a number."""
    x, y = rng.normal(size=n), rng.normal(size=n)
    X, Y = rng.normal(size=(n, 2)), rng.normal(size=(n, 3))
    Z = rng.normal(size=(n, 1))
    k = int(rng.integers(1, n + 1))
    rows = rng.permutation(n)[:k]
    clean = (x.copy(), y.copy(), X.copy(), Y.copy())
    for v in ((x, X) if who == "x" else (y, Y)):
        if bad == "coordinate" and v.ndim == 2:
            v[rows, rng.integers(v.shape[1], size=k)] = np.nan
        else:
            v[rows] = np.nan
    with np.errstate(all="ignore"):
        for f in EXP:
            cases = [(x, y, m, c) for m, c in api.FAST]
            cases += [(X, Y, "AUTO", "AUTO"), (X, Y, "NAIVE", "AUTO"),
                      (X, Y, "NAIVE", "NO_COMPILE")]
            for a, b, m, c in cases:
                r = ctx.call(f, getattr(dcor, f), a, b,
                             method=getattr(DM, m),
                             compile_mode=getattr(CM, c))
                vals = ((r.covariance_xy, r.correlation_xy,
                         r.variance_x if who == "x" else r.variance_y)
                        if isinstance(r, dcor.Stats) else (r,))
                for v in vals:
                    ctx.check(np.isnan(ctx.num(v, f)), "%s[%s,%s]: a number "
                              "from NaN samples" % (f, m, c), "nan_results",
                              got=repr(r)[:200], who=who, k=k, n=n)
                if isinstance(r, dcor.Stats):
                    w = clean[:2] if a.ndim == 1 else clean[2:]
                    w = ctx.call(f, getattr(dcor, f), *w,
                                 method=getattr(DM, m),
                                 compile_mode=getattr(CM, c))
                    o = "variance_y" if who == "x" else "variance_x"
                    g, h = (float(getattr(t, o)) for t in (r, w))
                    if f == "distance_stats":
                        g, h = g * abs(g), h * abs(h)
                    big = (b if who == "x" else a)
                    lim = 1e-9 * np.ptp(big, axis=0).max() ** 2
                    ctx.check(abs(g - h) <= lim, "%s[%s,%s]: the "
                              "variance of the sample without NaN" %
                              (f, m, c), "nan_results", got=g, want=h,
                              who=who)
        for f in ("distance_correlation_af_inv",
                  "distance_correlation_af_inv_sqr"):
            for a, b, m, c in cases:
                try:
                    r = getattr(dcor, f)(a, b, method=getattr(DM, m),
                                         compile_mode=getattr(CM, c))
                except np.linalg.LinAlgError:
                    ctx.ev("nan_refused")
                    continue
                ctx.check(np.isnan(ctx.num(r, f)), "%s[%s,%s]: a number "
                          "from NaN samples" % (f, m, c), "nan_results",
                          got=repr(r)[:200], who=who, k=k, n=n)
        for name, v in (
            ("energy_distance", dcor.energy_distance(x, y)),
            ("energy_distance", dcor.energy_distance(X, X[::-1] + 1)
             if who == "x" else np.nan),
            ("energy_test", HOM.energy_test(x, y).statistic),
            ("distance_covariance_test",
             IND.distance_covariance_test(X, Y).statistic),
            ("distance_correlation_t_statistic",
             IND.distance_correlation_t_statistic(X, Y)),
            ("distance_correlation_t_test",
             IND.distance_correlation_t_test(X, Y).pvalue),
            ("partial_distance_covariance",
             dcor.partial_distance_covariance(X, Y, Z)),
            ("partial_distance_correlation",
             dcor.partial_distance_correlation(X, Y, Z)),
            ("partial_distance_covariance (z)",
             dcor.partial_distance_covariance(
                 *(clean[2], clean[3], X) if who == "x"
                 else (Z, clean[2], Y))),
            ("partial_distance_correlation (z)",
             dcor.partial_distance_correlation(
                 *(clean[2], clean[3], X) if who == "x"
                 else (Z, clean[2], Y))),
            ("partial_distance_covariance_test",
             IND.partial_distance_covariance_test(X, Y, Z).statistic),
            ("energy_distance (U)", dcor.energy_distance(
                x, y, estimation_stat="U")),
            ("energy_test_statistic", HOM.energy_test_statistic(x, y)),
            ("energy_test of three", HOM.energy_test(
                Z, x[:, None], y[:, None]).statistic),
        ):
            ctx.check(np.isnan(ctx.num(v, name)), "%s: a number from NaN "
                      "samples" % name, "nan_results", got=repr(v), who=who,
                      k=k, n=n)
        r = dcor.rowwise(dcor.distance_correlation, np.array([x, Z[:, 0]]),
                         np.array([y, y if who == "x" else Z[:, 0]]))
        ctx.check(np.isnan(r[0]) and not np.isnan(r[1]), "rowwise: NaN is "
                  "not confined to its pair", "nan_results", got=r)
        d = dcor.distances.pairwise_distances(X if who == "x" else Y)
        mask = np.zeros((n, n), dtype=bool)
        mask[rows] = True
        mask[:, rows] = True
        # A point's distance to itself may be taken as 0 without looking.
        d[np.arange(n), np.arange(n)] = np.where(
            mask.diagonal(), np.nan, d.diagonal())
        ctx.check((np.isnan(d) == mask).all(), "pairwise_distances: NaN is "
                  "not confined to its point", "nan_results")
    ctx.nontrivial("nan", n, who, k, int(rng.integers(2**62)))


KINDS = {"sizes": k_sizes, "dims": k_dims, "options": k_options,
         "small": k_small, "exponent": k_exponent, "silent": k_silent,
         "nan": k_nan}


def systematic(ctx):
    for n, m in ((1100, 1101), (1101, 1100), (2100, 1050)):
        for p in (0, 2):
            yield "sizes", {"n": n, "m": m, "p": p}
    for n in (600, 1100):
        yield "silent", {"n": n, "how": "C"}
        yield "nan", {"n": n, "who": "x", "bad": "nan"}
        yield "nan", {"n": n, "who": "y", "bad": "nan"}
        yield "exponent", {"n": n, "e": 1.5}
        yield "exponent", {"n": n, "e": 2}
    for n, m in ((5, 6), (6, 5), (1, 5), (5, 1), (4, 8), (8, 4), (4, 2),
                 (2, 4), (3, 4), (20, 19), (64, 65), (128, 64)):
        for p in (0, 1, 2, 3):
            yield "sizes", {"n": n, "m": m, "p": p}
    for n, m in ((5, 5), (4, 6), (1, 5), (3, 2)):
        for p, q in ((1, 2), (2, 1), (2, 3), (4, 2), (1, 4)):
            yield "dims", {"n": n, "m": m, "p": p, "q": q}
    for n in (4, 5, 9, 30):
        yield "options", {"n": n}
    for n in (0, 1, 2, 3):
        yield "small", {"n": n}
    for e in (-1.5, -1e-9, 0, 1e-6, 0.01, 0.3, 0.5, 0.999, 1, 1.0, 1.001,
              1.5, 1.9, 1.999999, 2, 2.0, 2.000001, 2.5, 3, 10):
        yield "exponent", {"n": 6, "e": e}
    for how in ("C", "int", "f32", "const") + data.LAYOUTS[1:]:
        for n in (5, 8, 21):
            yield "silent", {"n": n, "how": how}
    for n in (4, 5, 8, 17):
        for who in "xy":
            for b in ("nan", "nan", "coordinate", "coordinate"):
                yield "nan", {"n": n, "who": who, "bad": b}


def random_case(ctx, rng):
    u = rng.random()
    n = data.size(rng, 4, 80)
    if u < 0.2:
        m = int(rng.choice((1, 2, 3, n - 1, n + 1, 2 * n, n + 7)))
        return "sizes", {"n": n, "m": m if m != n else n + 1,
                         "p": int(rng.integers(0, 4))}
    if u < 0.3:
        p = int(rng.integers(1, 5))
        return "dims", {"n": int(rng.integers(1, 9)),
                        "m": int(rng.integers(1, 9)), "p": p,
                        "q": p + int(rng.integers(1, 4))}
    if u < 0.4:
        return "options", {"n": n}
    if u < 0.5:
        return "exponent", {"n": n, "e": float(round(
            rng.uniform(-1, 3.5), 4))}
    if u < 0.75:
        return "silent", {"n": max(n, 5), "how": str(rng.choice(
            ("C", "int", "f32", "const") + data.LAYOUTS[1:]))}
    return "nan", {"n": n, "who": "xy"[int(rng.integers(2))],
                   "bad": ("nan", "coordinate")[int(rng.integers(2))]}
