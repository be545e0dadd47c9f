"""C23: form of the results and of the options, deprecated forms."""
import copy
import pickle
import warnings

import numpy as np

import api
import data
import dcor
from dcor import (CompileMode as CM, DistanceCovarianceMethod as DM,
                  EstimationStatistic as ES, RowwiseMode as RM)

IND = dcor.independence
HOM = dcor.homogeneity
SQR = ("distance_covariance_sqr", "u_distance_covariance_sqr",
       "distance_correlation_sqr", "u_distance_correlation_sqr")
BUNDLES = ("distance_stats", "distance_stats_sqr", "u_distance_stats_sqr")
SCALARS = SQR + ("distance_covariance", "distance_correlation",
                 "distance_correlation_af_inv",
                 "distance_correlation_af_inv_sqr")
FIELDS = ("covariance_xy", "correlation_xy", "variance_x", "variance_y")


def spelled(rng, word):
    return str(rng.choice([word.lower(), word.upper(), word.capitalize(),
                           "".join(c.upper() if rng.integers(2) else c.lower()
                                   for c in word)]))


def same(a, b):
    a, b = float(a), float(b)
    return a == b or (a != a and b != b) or \
        abs(a - b) <= 1e-12 * max(abs(a), abs(b)) + 1e-13


def scalar(ctx, v, what, **d):
    """One real number that behaves as such."""
    ctx.ev("scalars")
    ctx.check(np.ndim(v) == 0 and np.asarray(v).dtype.kind == "f",
              what + ": not a single real number", type=type(v).__name__,
              got=repr(v)[:200], **d)
    f = float(v)
    ctx.check("%.17g" % v == "%.17g" % f and (f != f or v == f),
              what + ": not usable as a number", got=repr(v)[:200], **d)


def result(ctx, v, what, **d):
    """The form of any result of the API."""
    if isinstance(v, dcor.Stats):
        parts = list(v)
        ctx.check(len(parts) == 4, what + ": a bundle of %d" % len(parts),
                  **d)
        for f, p in zip(FIELDS, parts):
            scalar(ctx, getattr(v, f), "%s.%s" % (what, f), **d)
            ctx.check(same(getattr(v, f), p), "%s: unpacks in another order"
                      % what, **d)
        # immutable
        for f in FIELDS:
            old = getattr(v, f)
            try:
                setattr(v, f, 123.0)
            except Exception:
                pass
            ctx.check(getattr(v, f) is old, "%s: bundle can be changed"
                      % what, "immutable", **d)
    elif isinstance(v, dcor.HypothesisTest):
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            ctx.check(isinstance(v.pvalue, float) or np.ndim(v.pvalue) == 0,
                      what + ": p-value is no number",
                      type=type(v.pvalue).__name__, **d)
            scalar(ctx, v.pvalue, what + ".pvalue", **d)
            scalar(ctx, v.statistic, what + ".statistic", **d)
    else:
        return False
    # copies and pickles are equal
    for how, w in (("pickle", pickle.loads(pickle.dumps(v))),
                   ("deepcopy", copy.deepcopy(v)), ("copy", copy.copy(v))):
        ctx.check(type(w) is type(v) and w == v or any(
            getattr(v, k) != getattr(v, k) for k in vars(v)),
            "%s: %s differs" % (what, how), "copies", got=repr(w),
            want=repr(v), **d)
    return True


def k_form(ctx, rng, n, kind):
    """Form of the results over the whole API."""
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for name, f, args in api.calls(rng, n, lambda s: "[warn]" not in s):
            if kind == "f32" and ("centered" in name or "prod" in name
                                  or "proj" in name or "rowwise" in name):
                continue
            if kind == "f32":
                args = tuple(a.astype(np.float32) if a.dtype == float else a
                             for a in args)
            v = f(*args)
            if result(ctx, v, name, n=n, kind=kind):
                ctx.feat("function", name)
            elif "rowwise" in name:
                ctx.check(np.ndim(v) >= 1, name + ": not a sequence", n=n)
            elif any(name.startswith(s) for s in SCALARS + (
                    "partial_distance_co", "energy_distance",
                    "energy_test_statistic",
                    "distance_correlation_t_statistic", "mean_product",
                    "u_product")):
                scalar(ctx, v, name, n=n, kind=kind)
                ctx.feat("function", name)
    ctx.nontrivial("form", n, kind, int(rng.integers(2**62)))


def k_deprecated(ctx, rng, n):
    """Old names of the parts of a test result."""
    x, y, z = (rng.normal(size=(n, 2)) for _ in range(3))
    s = int(rng.integers(2**31))
    k = {"num_resamples": int(rng.integers(0, 12)), "random_state": s}
    for name, r in (
        ("distance_covariance_test",
         IND.distance_covariance_test(x, y, **k)),
        ("partial_distance_covariance_test",
         IND.partial_distance_covariance_test(x, y, z, **k)),
        ("distance_correlation_t_test",
         IND.distance_correlation_t_test(x, y)),
        ("energy_test", HOM.energy_test(x, y + 1, **k)),
        ("HypothesisTest", dcor.HypothesisTest(
            pvalue=float(rng.random()), statistic=rng.normal())),
    ):
        p, t = r.pvalue, r.statistic
        for what, get, want in (
            ("p_value", lambda: (r.p_value,), (p,)),
            ("unpacking", lambda: tuple(r), (p, t)),
            ("len", lambda: (len(r),), (2,)),
        ):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                got = get()
            ctx.check(got == want, "%s: %s gives another value"
                      % (name, what), "deprecated", got=repr(got),
                      want=repr(want))
            ctx.check(any(issubclass(i.category, DeprecationWarning)
                          for i in w), "%s: %s does not warn" % (name, what),
                      "deprecation_warnings", got=[str(i) for i in w])
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                try:
                    get()
                except DeprecationWarning:
                    pass
                else:
                    ctx.viol("%s: %s warns no more" % (name, what))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r.p_value
        ctx.check(any(i.filename == __file__ for i in w),
                  "%s: the warning about p_value does not point at its user"
                  % name, "deprecation_warnings",
                  got=[i.filename for i in w])
        ctx.check((r.pvalue, r.statistic) == (p, t), "%s: changed by reading"
                  % name)
    ctx.nontrivial("deprecated", n, s)


def k_lists(ctx, rng, n, p, ctor):
    """Sequences that are not arrays."""
    q = p or 1
    x, y, z = (np.round(rng.normal(size=(n, q)), 6) for _ in range(3))
    if ctor == "ints":
        x, y, z = (np.round(v * 10).astype(int) for v in (x, y, z))
    if p == 0:
        x, y, z = x[:, 0], y[:, 0], z[:, 0]

    def seq(v):
        if ctor == "tuples":
            return tuple(map(tuple, v)) if v.ndim == 2 else tuple(v)
        return v.tolist()
    s = int(rng.integers(2**31))
    k = {"num_resamples": 5, "random_state": s}
    cs = [(f, lambda *a, g=getattr(dcor, f): g(*a), (x, y))
          for f in SCALARS + BUNDLES + ("energy_distance",)]
    cs += [(f + "[%s]" % m, lambda *a, g=getattr(dcor, f), m=m: g(
        *a, method=m), (x, y)) for f in SCALARS + BUNDLES
        for m in (("avl", "mergesort", "naive") if p <= 1 else ("naive",))]
    cs += [
        ("energy_distance[U]", lambda *a: dcor.energy_distance(
            *a, estimation_stat="U"), (x, y[:-1])),
        ("partial_distance_covariance", dcor.partial_distance_covariance,
         (x, y, z)),
        ("partial_distance_correlation", dcor.partial_distance_correlation,
         (x, y, z)),
        ("pairwise_distances", dcor.distances.pairwise_distances, (x,)),
        ("pairwise_distances", dcor.distances.pairwise_distances,
         (x, y[:-2])),
        ("t_statistic", IND.distance_correlation_t_statistic, (x, y)),
        ("t_test", IND.distance_correlation_t_test, (x, y)),
        ("distance_covariance_test",
         lambda *a: IND.distance_covariance_test(*a, **k), (x, y)),
        ("partial_distance_covariance_test",
         lambda *a: IND.partial_distance_covariance_test(*a, **k),
         (x, y, z)),
        ("energy_test", lambda *a: HOM.energy_test(*a, **k), (x, y[:-1], z)),
        ("energy_test_statistic", HOM.energy_test_statistic, (x, y)),
    ]
    with np.errstate(all="ignore"):
        for name, f, args in cs:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    got = f(*map(seq, args))
                except Exception:
                    ctx.ev("sequences_refused")
                    continue
            want = f(*args)
            a, b = (np.asarray([t.pvalue, t.statistic]
                               if isinstance(t, dcor.HypothesisTest)
                               else list(t) if isinstance(t, dcor.Stats)
                               else t, dtype=float) for t in (got, want))
            ctx.check(a.shape == b.shape and np.allclose(
                a, b, rtol=1e-12, atol=1e-13, equal_nan=True),
                "%s: another value from sequences" % name, "sequences",
                got=a, want=b, ctor=ctor)
            ctx.check(any(issubclass(i.category, DeprecationWarning)
                          for i in w), "%s: sequences are taken without a "
                      "deprecation warning" % name, "sequences", ctor=ctor)
            ctx.feat("sequences", name)
    ctx.nontrivial("lists", x, y)


def k_options(ctx, rng, n):
    """Options by name, by member and by a copy of the member; arguments by
    position and by name."""
    x, y, z = rng.normal(size=(3, n))
    y = y + 0.5 * x * x
    for name in SCALARS + BUNDLES:
        g = getattr(dcor, name)
        for m in ("AUTO", "NAIVE", "AVL", "MERGESORT"):
            member = getattr(DM, m)
            v = g(x, y, method=member)
            d = {"n": n, "method": m, "name": name}
            for how, w in (
                ("by name", lambda: g(x, y, method=spelled(rng, m))),
                ("by the enumeration", lambda: g(x, y, method=DM[m])),
                ("by a copy of the member", lambda: g(
                    x, y, method=pickle.loads(pickle.dumps(member)),
                    compile_mode=pickle.loads(pickle.dumps(CM.AUTO)))),
                ("by keywords", lambda: g(y=y, x=x, method=member)),
            ):
                w = w()
                a, b = ((list(t) if isinstance(t, dcor.Stats) else [t])
                        for t in (v, w))
                ctx.check(all(map(same, a, b)), "%s: another value with "
                          "arguments %s" % (name, how), "options",
                          got=repr(w), want=repr(v), **d)
    for m in DM:
        ctx.check(repr(m) == "DistanceCovarianceMethod." + m.name,
                  "representation of a method", "options", got=repr(m))
    for e in (DM, CM, RM, ES):
        for m in e:
            ctx.check(pickle.loads(pickle.dumps(m)) is m
                      and copy.deepcopy(m) is m and e[m.name] is m,
                      "%s does not survive a copy" % m, "options")
    X, Y = rng.normal(size=(n, 2)), rng.normal(size=(n + 2, 2)) + 0.3
    for m in ES:
        want = dcor.energy_distance(X, Y, estimation_stat=m)
        tw = HOM.energy_test(X, Y, num_resamples=9, random_state=4,
                             estimation_stat=m)
        for word in (m.name, m.name[0]):
            t = spelled(rng, word)
            ctx.check(ES.from_string(t) is m, "from_string", "options",
                      got=t)
            ctx.check(same(dcor.energy_distance(X, Y, estimation_stat=t),
                           want), "energy_distance: another value with the "
                      "name of the statistic", "options", got=t)
            ctx.check(same(HOM.energy_test_statistic(
                X, Y, estimation_stat=t), tw.statistic),
                "energy_test_statistic: another value with the name of the "
                "statistic", "options", got=t)
            r = HOM.energy_test(X, Y, num_resamples=9, random_state=4,
                                estimation_stat=t)
            ctx.check(same(r.statistic, tw.statistic)
                      and r.pvalue == tw.pvalue, "energy_test: another value "
                      "with the name of the statistic", "options", got=t)
    Z = rng.normal(size=(n, 2))
    U = rng.normal(size=(n, 1))
    for name, g, args in (
        ("partial_distance_covariance", dcor.partial_distance_covariance,
         {"x": X, "y": U, "z": Z}),
        ("partial_distance_correlation", dcor.partial_distance_correlation,
         {"x": X, "y": U, "z": Z}),
        ("t_statistic", IND.distance_correlation_t_statistic,
         {"x": X, "y": Z}),
        ("energy_distance", dcor.energy_distance, {"x": X, "y": Y}),
        ("distance_covariance_test",
         lambda *a, **k: IND.distance_covariance_test(
             *a, num_resamples=9, random_state=3, **k).pvalue,
         {"x": X, "y": U}),
        ("partial_distance_covariance_test",
         lambda *a, **k: IND.partial_distance_covariance_test(
             *a, num_resamples=9, random_state=3, **k).pvalue,
         {"x": X, "y": U, "z": Z}),
    ):
        rev = dict(reversed(list(args.items())))
        ctx.check(same(g(*args.values()), g(**rev)), "%s: another value with "
                  "arguments by keywords" % name, "options")
    ctx.nontrivial("options", x, y)


KINDS = {"form": k_form, "deprecated": k_deprecated, "lists": k_lists,
         "options": k_options}


def systematic(ctx):
    for n in (4, 5, 6, 9, 16, 40):
        yield "options", {"n": n}
        yield "deprecated", {"n": n}
        for kind in ("f64", "f32"):
            yield "form", {"n": max(n, 8), "kind": kind}
        for p in (0, 1, 2, 3):
            for c in ("lists", "tuples", "ints"):
                yield "lists", {"n": max(n, 5), "p": p, "ctor": c}


def random_case(ctx, rng):
    k = int(rng.integers(4))
    n = int(rng.integers(8, 30))
    if k == 0:
        return "options", {"n": n}
    if k == 1:
        return "deprecated", {"n": n}
    if k == 2:
        return "form", {"n": n, "kind": str(rng.choice(("f64", "f32")))}
    return "lists", {"n": n, "p": int(rng.integers(0, 5)),
                     "ctor": str(rng.choice(("lists", "tuples", "ints")))}
