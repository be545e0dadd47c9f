"""C15: purity: calls neither change their arguments nor leave a trace."""
import decimal
import gc
import os
import random
import sys
import warnings

import numba
import numpy as np

import api
import data
import dcor
from envstate import env_state, same_env
import oracle


def owners(a):
    """The chain of arrays that own the memory."""
    while isinstance(a, np.ndarray):
        yield a
        a = a.base


def snapshot(arrays):
    """Bytes of every buffer involved, including what surrounds a view."""
    out = []
    for a in arrays:
        last = list(owners(a))[-1]
        out.append((a.shape, a.strides, a.dtype, a.flags.writeable,
                    a.tobytes(), np.ascontiguousarray(last).tobytes()))
    return out


def results(res):
    r = api.flat(res)
    return [v for v in r if isinstance(v, np.ndarray) and v.ndim]


def k_args(ctx, rng, n, lay, part):
    """Arguments come back byte-identical, no result aliases them."""
    cs = api.calls(rng, n)
    for name, fn, args in cs[part[0]::part[1]]:
        arrs = tuple(data.layout(a, lay) for a in args)
        before, env = snapshot(arrs), env_state()
        res = ctx.call(name, fn, *arrs)
        ctx.ev("argument_snapshots", len(arrs))
        ctx.check(snapshot(arrs) == before, "%s changed its arguments" % name,
                  "snapshots", n=n, layout=lay)
        same_env(ctx, env, name, n=n, layout=lay)
        for r in results(res):
            for a in arrs:
                ctx.check(not np.shares_memory(r, a), "the result of %s is a "
                          "view of an argument" % name, "aliases",
                          layout=lay)
        # a result belongs to the caller: writing on it has no effect on
        # later calls
        copy = [np.array(v) for v in api.flat(res)]
        for r in results(res):
            if r.flags.writeable:
                r[...] = -1e300
        again = ctx.call(name, fn, *arrs)
        ctx.check(all(u.tobytes() == v.tobytes() for u, v in zip(
            copy, api.flat(again))), "%s: the same call gives another value"
            % name, "repeats", n=n, layout=lay,
            first=[show(v) for v in copy],
            second=[show(v) for v in api.flat(again)])
        ctx.feat("function", name)
    ctx.feat("layout", lay)
    ctx.nontrivial("args", n, lay, part, int(rng.integers(2**62)))


def show(v):
    return np.array(v).ravel()[:4].tolist()


def k_history(ctx, rng, n, steps):
    """A long history of mixed calls; each call repeated at random later
    times with fresh copies gives bit-identical values."""
    pool = []
    for m in (n, n + 1, max(4, n // 2)):
        pool += api.calls(rng, m)
    memo, kept = {}, {}
    for s in range(steps):
        j = int(rng.integers(len(pool))) if rng.random() < 0.5 or not memo \
            else int(rng.choice(list(memo)))
        name, fn, args = pool[j]
        if rng.integers(2):
            args = tuple(np.array(a) for a in args)
        res = ctx.call(name, fn, *args)
        if j in memo:
            ctx.check(api.same(res, memo[j]) or api.close(res, memo[j], 1e-10),
                      "%s: the value depends on the "
                      "calls made before" % name, "history_repeats", n=n,
                      step=s, first=[show(v) for v in api.flat(memo[j])],
                      second=[show(v) for v in api.flat(res)])
        else:
            memo[j] = res
            kept[j] = [v.tobytes() for v in api.flat(res)]
        # another call that raises, in between
        if rng.random() < 0.1:
            try:
                dcor.distance_covariance(np.ones(5), np.ones(6))
            except Exception:
                ctx.ev("failing_calls_between")
        if rng.random() < 0.02:
            gc.collect()
    # the results handed out are still what they were
    for j, b in kept.items():
        ctx.check([v.tobytes() for v in api.flat(memo[j])] == b,
                  "later calls changed a result of %s" % pool[j][0],
                  "results_kept", n=n)
    ctx.nontrivial("history", n, steps, int(rng.integers(2**62)))
    ctx.sample({"n": n, "steps": steps, "distinct_calls": len(memo)})


def k_mutate(ctx, rng, n, part):
    """The same array object with new contents: nothing is remembered."""
    cs = api.calls(rng, n)
    for name, fn, args in cs[part[0]::part[1]]:
        if name.startswith(("u_proj", "u_comp")):
            continue
        arrs = tuple(np.array(a) for a in args)
        ctx.call(name, fn, *arrs)
        for a in arrs:
            if a.dtype.kind in "iu":
                a[...] = a[::-1].copy()
                a[0] += 2
            elif a.ndim == 2 and a.shape[0] == a.shape[1] \
                    and (a == a.T).all():
                a *= 1.5
            else:
                a[...] = a[::-1] * 1.25 + rng.normal(size=a.shape)
        res = ctx.call(name, fn, *arrs)
        fresh = ctx.call(name, fn, *(np.array(a) for a in arrs))
        ctx.check(api.same(res, fresh) or api.close(res, fresh, 1e-10),
                  "%s: an array modified in place is "
                  "not read again" % name, "mutations", n=n,
                  first=[show(v) for v in api.flat(res)],
                  fresh=[show(v) for v in api.flat(fresh)])
    ctx.nontrivial("mutate", n, part, int(rng.integers(2**62)))


def k_reuse(ctx, rng, n, steps):
    """Objects that die and whose id and memory are used again."""
    for s in range(steps):
        x = data.vec(rng, n, "normal")
        y = data.vec(rng, n, "ties") + x
        dc = oracle.DC(x, y)
        ids = id(x), id(y)
        for f, w in ((dcor.distance_covariance_sqr, dc.cov),
                     (dcor.u_distance_covariance_sqr, dc.ucov)):
            ctx.close(ctx.call("f", f, x, y), w, 1e-9 * (dc.mx * dc.my),
                      "wrong value in a sequence of calls", "id_reuse")
        d = dcor.distances.pairwise_distances(x)
        ctx.allclose(d, oracle.dist(x), 1e-9 * dc.mx + 1e-12,
                     "wrong distances in a sequence of calls", "id_reuse")
        e = ctx.call("energy_distance", dcor.energy_distance, x, y)
        ctx.close(e, oracle.energy(x, y), 1e-9 * (dc.mx + dc.my),
                  "wrong energy in a sequence of calls", "id_reuse")
        del x, y
        ctx.feat("address", ids[0] % 4096)
    ctx.nontrivial("reuse", n, int(rng.integers(2**62)))


def k_out(ctx, rng, n, fn):
    """The out= arrays of the centring functions."""
    f = getattr(dcor, fn)
    x = data.mat(rng, n, 2, "normal")
    a = dcor.distances.pairwise_distances(x)
    want = np.array(f(a))
    out = np.full((n, n), 7.0)
    keep = a.tobytes()
    r = ctx.call(fn, f, a, out=out)
    ctx.check(r is out, "%s(out=) does not return out" % fn, "out")
    ctx.check(a.tobytes() == keep, "%s(a, out=out) changed a" % fn, "out")
    ctx.allclose(out, want, 1e-12, "%s(out=) differs" % fn, "out")
    b = a.copy()
    r = ctx.call(fn, f, b, out=b)
    ctx.check(r is b, "%s(out=) does not return out" % fn, "out")
    ctx.allclose(b, want, 1e-12, "%s in place differs" % fn, "out")
    ctx.nontrivial("out", x)


def k_env(ctx, rng, n, how):
    """The environment of the process under several initial settings, with
    calls that warn and calls that fail."""
    cs = api.calls(rng, n)
    bad = [
        ("different sizes", dcor.distance_covariance,
         (np.ones(5), np.arange(6.0))),
        ("different sizes", dcor.partial_distance_correlation,
         (np.ones(5), np.arange(5.0), np.arange(6.0))),
        ("unknown option", lambda a: dcor.energy_distance(
            a, a, estimation_stat="W"), (np.arange(5.0),)),
        ("unknown option", lambda a: dcor.distance_correlation(
            a, a, method="heap"), (np.arange(5.0),)),
        ("negative resamples", lambda a:
         dcor.independence.distance_covariance_test(
             a, a, num_resamples=-1), (np.arange(5.0),)),
        ("bad seed", lambda a: dcor.independence.distance_covariance_test(
            a, a, num_resamples=3, random_state="x"), (np.arange(5.0),)),
        ("bad average", lambda a: dcor.energy_distance(
            a, a, average=raising), (np.arange(5.0),)),
    ]
    # tests that draw from a generator of their own
    ind, hom = dcor.independence, dcor.homogeneity
    a, b, c = (rng.normal(size=(n, 2)) for _ in range(3))
    for kw in ({}, {"random_state": None}, {"random_state": 5},
               {"random_state": np.random.RandomState(3)}):
        for f, v in ((ind.distance_covariance_test, (a, b)),
                     (ind.partial_distance_covariance_test, (a, b, c)),
                     (hom.energy_test, (a, b)), (hom.energy_test, (a, b, c))):
            bad.append(("%s(%s)" % (f.__name__, ", ".join(kw)),
                        lambda *v, f=f, kw=kw: f(*v, num_resamples=4, **kw),
                        v))
    old = np.geterr()
    with warnings.catch_warnings():
        warnings.resetwarnings()
        if how == "error":
            warnings.simplefilter("error")
        elif how == "ignore":
            warnings.simplefilter("ignore")
        elif how == "once":
            warnings.simplefilter("once")
        elif how == "many":
            warnings.simplefilter("ignore")
            warnings.filterwarnings("error", module="nothing")
            warnings.filterwarnings("ignore", category=UserWarning)
        if how == "many":
            np.seterr(all="ignore", under="call")
        elif how == "error":
            np.seterr(invalid="raise", divide="raise")
        try:
            for name, fn, args in cs + bad:
                env = env_state()
                arrs = tuple(np.array(a) for a in args)
                before = snapshot(arrs)
                try:
                    with open(os.devnull, "w") as null:
                        err, sys.stderr = sys.stderr, null
                        try:
                            fn(*arrs)
                        finally:
                            sys.stderr = err
                    ctx.ev("returned")
                except Exception:
                    ctx.ev("raised")
                same_env(ctx, env, name, how=how, n=n)
                ctx.check(snapshot(arrs) == before,
                          "%s changed its arguments" % name, "snapshots")
        finally:
            np.seterr(**old)
    ctx.feat("environment", how)
    ctx.nontrivial("env", n, how, int(rng.integers(2**62)))


def raising(a):
    raise ZeroDivisionError


FAULTS = ("nan", "nans", "inf", "short", "cube", "empty", "constant", "huge",
          "text", "one")


def damage(rng, a, how):
    """An argument that a call may reject, or fail on."""
    a = np.array(a)
    if how == "short":
        return a[:-1]
    if how == "cube":
        return np.stack([a, a])
    if how == "empty":
        return a[:0]
    if how == "one":
        return a[:1]
    if how == "constant":
        return np.full(a.shape, a.flat[0])
    if how == "text":
        return np.full(a.shape, "a")
    if a.dtype.kind != "f" or not a.size:
        a = a.astype(float)
    if how == "huge":
        return np.sign(a) * 1e308
    if how == "nans":
        a[...] = np.nan
    elif a.size:
        a.flat[int(rng.integers(a.size))] = {"nan": np.nan,
                                             "inf": np.inf}[how]
    return a


def k_faults(ctx, rng, n, how, seterr):
    """Calls that fail half way leave nothing behind either: the state of
    the process, the arguments, and the values of later calls."""
    cs = api.calls(rng, n)
    m3 = tuple(rng.normal(size=(n, 3)) for _ in range(2))
    cs += [("af_inv", dcor.distance_correlation_af_inv, m3),
           ("af_inv_sqr", dcor.distance_correlation_af_inv_sqr, m3),
           ("rowwise(raising)", lambda a, b: dcor.rowwise(
               lambda u, v: raising(u), a, b), m3),
           ("energy_distance(raising)", lambda a, b: dcor.energy_distance(
               a, b, average=raising), m3),
           ("energy_test(raising)", lambda a, b:
            dcor.homogeneity.energy_test(
                a, b, average=raising, num_resamples=3, random_state=1), m3),
           ("test(raising generator)", lambda a, b:
            dcor.independence.distance_covariance_test(
                a, b, num_resamples=4, random_state=Failing(2)), m3)]
    after = api.calls(rng, n)
    want = {}
    old = np.geterr()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.seterr(all=seterr)
        try:
            for name, fn, args in cs:
                arrs = [np.array(a) for a in args]
                k = int(rng.integers(len(arrs) + 1))
                arrs = [damage(rng, a, how) if k in (i, len(arrs)) else a
                        for i, a in enumerate(arrs)]
                env, before = env_state(), snapshot(arrs)
                try:
                    with open(os.devnull, "w") as null:
                        err, sys.stderr = sys.stderr, null
                        try:
                            fn(*arrs)
                        finally:
                            sys.stderr = err
                    ctx.ev("returned")
                except Exception as e:
                    ctx.ev("raised")
                    ctx.feat("failure", type(e).__name__)
                same_env(ctx, env, "%s (%s)" % (name, how), n=n)
                ctx.check(snapshot(arrs) == before, "%s (%s) changed its "
                          "arguments" % (name, how), "snapshots")
        finally:
            np.seterr(**old)
        for i, (name, fn, args) in enumerate(after):
            want[i] = ctx.call(name, fn, *args)
    # the same calls in between other failures
    for i, (name, fn, args) in enumerate(after):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fn(*(damage(rng, a, how) for a in args))
        except Exception:
            ctx.ev("raised")
        got = ctx.call(name, fn, *args)
        ctx.check(api.same(got, want[i]) or api.close(got, want[i], 1e-10),
                  "%s: the value depends on a call that failed before (%s)"
                  % (name, how), "after_failures", n=n,
                  first=[show(v) for v in api.flat(want[i])],
                  second=[show(v) for v in api.flat(got)])
    ctx.feat("fault", (how, seterr))
    ctx.nontrivial("faults", n, how, seterr, int(rng.integers(2**62)))


class Failing(np.random.RandomState):
    """A generator that breaks at its second permutation."""
    used = 0

    def permutation(self, x):
        self.used += 1
        if self.used > 1:
            raise RuntimeError("broken generator")
        return super().permutation(x)


LIVE1 = ("distance_covariance_sqr", "u_distance_covariance_sqr",
         "distance_correlation_sqr", "u_distance_correlation_sqr",
         "distance_stats_sqr", "u_distance_stats_sqr",
         "distance_correlation_af_inv_sqr")


def k_live(ctx, rng, n, steps, dims):
    """A few arrays that live on, are given to many functions in any place,
    and change in place between calls. Every value is compared with that of
    copies, the main ones also with the definition."""
    if dims:
        live = [data.mat(rng, n, 2, "normal") for _ in range(4)]
    else:
        live = [data.vec(rng, n, "normal") for _ in range(4)]
    ind, hom = dcor.independence, dcor.homogeneity
    seed = int(rng.integers(2**31))
    fns = [(f, getattr(dcor, f), 2) for f in LIVE1]
    fns += [
        ("partial_distance_covariance",
         dcor.partial_distance_covariance, 3),
        ("partial_distance_correlation",
         dcor.partial_distance_correlation, 3),
        ("energy_distance", dcor.energy_distance, 2),
        ("energy_test_statistic", hom.energy_test_statistic, 2),
        ("pairwise_distances", dcor.distances.pairwise_distances, 2),
        ("pairwise_distances(x)", dcor.distances.pairwise_distances, 1),
        ("t_statistic", ind.distance_correlation_t_statistic, 2),
        ("distance_covariance_test", lambda *a: ind.distance_covariance_test(
            *a, num_resamples=6, random_state=seed), 2),
        ("partial_test", lambda *a: ind.partial_distance_covariance_test(
            *a, num_resamples=6, random_state=seed), 3),
        ("energy_test", lambda *a: hom.energy_test(
            *a, num_resamples=6, random_state=seed), 2),
    ]
    focus = [fns[int(i)] for i in rng.choice(len(fns), 3, replace=False)]
    for s in range(steps):
        u = rng.random()
        if u < 0.5:
            a = live[int(rng.integers(len(live)))]
            k = int(rng.integers(4))
            if k == 0:
                a[...] = rng.normal(size=a.shape)
            elif k == 1:
                a[int(rng.integers(n))] += 1 + rng.random()
            elif k == 2:
                i, j = (int(v) for v in rng.integers(0, n, size=2))
                a[i], a[j] = a[j].copy(), a[i].copy()
            else:
                a[n // 2:] = a[n // 2:][::-1].copy()
            ctx.ev("changes_in_place")
        elif u < 0.55:
            i = int(rng.integers(len(live)))
            live[i] = live[i].copy() if rng.integers(2) else \
                rng.normal(size=live[i].shape)
        name, fn, k = (focus[int(rng.integers(3))] if rng.random() < 0.7
                       else fns[int(rng.integers(len(fns)))])
        args = [live[int(i)] for i in rng.integers(0, len(live), size=k)]
        fresh = [a.copy() for a in args]
        first = rng.integers(2)
        if first:
            want = ctx.call(name, fn, *fresh)
        got = ctx.call(name, fn, *args)
        if not first:
            want = ctx.call(name, fn, *fresh)
        ctx.check(api.same(got, want) or api.close(got, want, 1e-9),
                  "%s: the value depends on the history of the arrays"
                  % name, "live_calls", step=s, n=n,
                  got=[show(v) for v in api.flat(got)],
                  copies=[show(v) for v in api.flat(want)])
        # against the definition, so that no memory can help
        if name in ("distance_covariance_sqr", "u_distance_covariance_sqr",
                    "pairwise_distances", "energy_distance") \
                and rng.random() < 0.3:
            if name == "pairwise_distances":
                w = oracle.dist(*fresh)
            elif name == "energy_distance":
                w = oracle.energy(*fresh)
            else:
                dc = oracle.DC(*fresh)
                w = dc.ucov if name[0] == "u" else dc.cov
            ctx.allclose(got, w, 1e-9, "%s: wrong value after a history of "
                         "changes" % name, "live_defined", n=n)
    ctx.feat("focus", "+".join(sorted(f[0] for f in focus)))
    ctx.nontrivial("live", n, steps, dims, int(rng.integers(2**62)))


def centred(rng, n, how):
    """Symmetric matrices that the functions leave as they are (or could)."""
    if how == "zeros":
        return np.zeros((n, n))
    if how == "identity":
        return np.eye(n)
    if how == "ones":
        return np.ones((n, n))
    # exact arithmetic: signs and small integers whose rows add up to zero
    if how == "circulant":
        c = np.zeros(n)
        c[0], c[1], c[-1] = 2.0, c[1] - 1.0, c[-1] - 1.0
        return np.array([np.roll(c, i) for i in range(n)])
    if how == "hollow":
        # zero diagonal and zero rows: centred in both senses
        a = np.zeros((n, n))
        for i, j, k, l in (rng.permutation(n)[:4] for _ in range(n)):
            for u, v, s in ((i, j, 1), (j, k, -1), (k, l, 1), (l, i, -1)):
                a[u, v] += s
                a[v, u] += s
        return a
    b = rng.integers(-4, 5, size=(n, n)).astype(float)
    return b + b.T


def k_alias(ctx, rng, n, how, dt):
    """No result shares memory with an argument, also where the result is
    equal to it (matrices already centred, zero projections, ...)."""
    a = centred(rng, n, how).astype(dt)
    c = centred(rng, n, str(rng.choice(("zeros", "hollow", "general")))
                ).astype(float)
    x = np.zeros((n, 2)) if rng.integers(2) else rng.normal(size=(n, 2))
    pd = dcor.distances.pairwise_distances
    cs = [("double_centered", dcor.double_centered, (a,)),
          ("u_centered", dcor.u_centered, (a,)),
          ("u_projection", lambda m, b: dcor.u_projection(m)(b), (c, a)),
          ("u_projection", lambda m, b: dcor.u_projection(m)(b), (a, c)),
          ("u_projection", lambda m: dcor.u_projection(m)(m), (c,)),
          ("u_complementary_projection",
           lambda m, b: dcor.u_complementary_projection(m)(b), (c, a)),
          ("u_complementary_projection",
           lambda m, b: dcor.u_complementary_projection(m)(b), (a, c)),
          ("u_complementary_projection",
           lambda m: dcor.u_complementary_projection(m)(m), (c,)),
          ("pairwise_distances", pd, (a,)),
          ("pairwise_distances", pd, (a[:, :1], np.zeros((1, 1)))),
          ("pairwise_distances", pd, (x, np.zeros((1, 2)))),
          ("rowwise", lambda u, v: dcor.rowwise(
              dcor.distance_covariance_sqr, u, v), (a * 1.0, c))]
    for name, f, args in cs:
        args = tuple(np.array(v) for v in args)
        before = snapshot(args)
        r1 = np.asarray(ctx.call(name, f, *args))
        keep = r1.copy()
        d = {"how": how, "dtype": dt, "n": n, "args": args}
        for v in args:
            ctx.check(not np.shares_memory(r1, v), "the result of %s shares "
                      "memory with an argument" % name, "aliases", **d)
        ctx.check(snapshot(args) == before, "%s changed its arguments" % name,
                  "snapshots", **d)
        if r1.flags.writeable and r1.ndim:
            r1[...] = 77
            ctx.check(snapshot(args) == before, "changing the result of %s "
                      "changes an argument" % name, "aliases", **d)
        r2 = np.asarray(ctx.call(name, f, *args))
        ctx.check(r2.tobytes() == keep.tobytes(), "%s gives another result "
                  "after its first result was changed" % name, "repeats", **d)
        for v in args:
            v[...] = 1
        ctx.check(r2.tobytes() == keep.tobytes(), "the result of %s changes "
                  "with the argument" % name, "aliases", **d)
    ctx.feat("special_matrix", (how, dt))
    ctx.nontrivial("alias", how, dt, a, c)


SPECIAL = ("zeros", "identity", "ones", "circulant", "hollow", "general")

KINDS = {"faults": k_faults, "alias": k_alias, "args": k_args, "history": k_history, "mutate": k_mutate,
         "reuse": k_reuse, "out": k_out, "env": k_env, "live": k_live}


def systematic(ctx):
    for how in FAULTS:
        for e in ("warn", "ignore", "raise"):
            yield "faults", {"n": 7, "how": how, "seterr": e}
    for how in SPECIAL:
        for dt in ("f8", "i8", "f4"):
            for n in (4, 5, 8):
                yield "alias", {"n": n, "how": how, "dt": dt}
    for lay in data.LAYOUTS:
        for n in (5, 12):
            for i in range(2):
                yield "args", {"n": n, "lay": lay, "part": [i, 2]}
    for how in ("default", "ignore", "error", "once", "many"):
        yield "env", {"n": 8, "how": how}
    for n in (4, 8, 33, 70):
        yield "args", {"n": n, "lay": "C", "part": [0, 1]}
        yield "mutate", {"n": n, "part": [0, 1]}
    for n in (5, 16, 40):
        yield "history", {"n": n, "steps": 300}
        yield "reuse", {"n": n, "steps": 60}
        for d in (0, 1):
            yield "live", {"n": n, "steps": 400, "dims": d}
    for n in (3, 4, 5, 9):
        yield "out", {"n": n, "fn": "double_centered"}
        yield "out", {"n": n, "fn": "u_centered"}


def random_case(ctx, rng):
    u = rng.random()
    if rng.random() < 0.05:
        return "alias", {"n": int(rng.integers(4, 12)),
                         "how": str(rng.choice(SPECIAL)),
                         "dt": str(rng.choice(("f8", "i8", "f4")))}
    if rng.random() < 0.05:
        return "faults", {"n": data.size(rng, 5, 40),
                          "how": str(rng.choice(FAULTS)),
                          "seterr": str(rng.choice(("warn", "raise",
                                                    "ignore")))}
    n = data.size(rng, 5, 60)
    if u < 0.25:
        return "history", {"n": n, "steps": 250}
    if u < 0.45:
        return "args", {"n": n, "lay": str(rng.choice(data.LAYOUTS)),
                        "part": [int(rng.integers(3)), 3]}
    if u < 0.6:
        return "mutate", {"n": n, "part": [int(rng.integers(3)), 3]}
    if u < 0.7:
        return "reuse", {"n": n, "steps": 40}
    if u < 0.9:
        return "live", {"n": n, "steps": 300, "dims": int(rng.integers(2))}
    if u < 0.96:
        return "env", {"n": n, "how": str(rng.choice((
            "default", "ignore", "error", "once", "many")))}
    return "out", {"n": n, "fn": str(rng.choice(("double_centered",
                                                 "u_centered")))}
