"""C14: rowwise(f, x, y)[i] is f(x[i], y[i]), whatever the mode."""
import threading
import warnings

import numpy as np

import data
import dcor
import oracle
from common import TOL, corr_parts, cov_tol
from dcor import CompileMode as CM, DistanceCovarianceMethod as DM, \
    RowwiseMode as RM

# function -> (bias corrected, correlation, square root)
FUNCS = {
    "distance_covariance_sqr": (False, False, False),
    "u_distance_covariance_sqr": (True, False, False),
    "distance_covariance": (False, False, True),
    "distance_correlation_sqr": (False, True, False),
    "u_distance_correlation_sqr": (True, True, False),
    "distance_correlation": (False, True, True),
}
SHAPES = ("2d", "3d", "list", "tuple", "listcol", "T", "strided", "ro",
          "int", "f32", "mixed", "sliced", "neg", "be")
# (rowwise mode, compile mode, method)
MODES = (
    ("AUTO", None, None), ("AUTO", "AUTO", "AUTO"),
    ("AUTO", "COMPILE_CPU", None), ("AUTO", "COMPILE_PARALLEL", None),
    ("OPTIMIZED", None, None), ("OPTIMIZED", "COMPILE_CPU", "AVL"),
    ("OPTIMIZED", "COMPILE_PARALLEL", "AVL"), ("NAIVE", None, None),
    ("NAIVE", "COMPILE_CPU", "MERGESORT"), ("NAIVE", "NO_COMPILE", "AVL"),
    ("AUTO", "NO_COMPILE", None), ("AUTO", None, "MERGESORT"),
    ("AUTO", None, "NAIVE"), ("NAIVE", None, "NAIVE"),
)


def shaped(rng, rows, shape):
    """The list of samples as rowwise may receive it."""
    a = np.stack(rows)
    if shape == "2d":
        return a
    if shape == "3d":
        return a[..., None]
    if shape == "list":
        return [r.copy() for r in rows]
    if shape == "tuple":
        return tuple(r.copy() for r in rows)
    if shape == "listcol":
        return [r[:, None].copy() for r in rows]
    if shape == "T":
        return np.array(a.T, order="C").T
    if shape == "strided":
        return data.layout(a, "strided")
    if shape == "ro":
        return data.layout(a, "ro")
    if shape == "neg":
        return np.array(a[::-1, ::-1])[::-1, ::-1]
    if shape == "be":
        return data.layout(a, "be")
    if shape == "sliced":
        big = np.full((a.shape[0] + 4, a.shape[1] + 5), -777.25)
        big[2:2 + a.shape[0], 3:3 + a.shape[1]] = a
        return big[2:2 + a.shape[0], 3:3 + a.shape[1]]
    if shape == "int":
        return a.astype(np.int32)
    if shape == "f32":
        return a.astype(np.float32)
    if shape == "mixed":
        return [r.copy() if i % 2 else r.astype(np.float32)
                for i, r in enumerate(rows)]
    raise KeyError(shape)


def mode_kw(m):
    kw = {"rowwise_mode": getattr(RM, m[0])}
    if m[1]:
        kw["compile_mode"] = getattr(CM, m[1])
    if m[2]:
        kw["method"] = getattr(DM, m[2])
    return kw


def compare(ctx, fn, got, k, dcs, d):
    bc, corr, root = FUNCS[fn]
    got = np.asarray(got)
    ctx.check(got.shape == (k,), "rowwise: one value per pair expected",
              "results", got_shape=got.shape, **d)
    g = 20 if bc else 1
    for i, dc in enumerate(dcs):
        if corr:
            cp = corr_parts(dc, bc)
            if cp is None:
                ctx.ev("degenerate_correlations_skipped")
                continue
            want, tol = cp[0], cp[1] * g
        else:
            want, tol = dc.get(bc)[0], cov_tol(dc) * g
        v = got[i]
        if root:
            v = ctx.num(v, fn)
            if not v >= 0:
                ctx.viol("rowwise %s: negative or NaN" % fn, row=i, **d)
            v, want = v * v, max(want, 0)
        ctx.close(v, want, tol, "rowwise(%s)[i] is not %s(x[i], y[i])"
                  % (fn, fn), "rows", row=i, **d)


def k_rows(ctx, rng, fn, k, n, shape, mode):
    kind = str(rng.choice(("normal", "ties", "heavy", "offset", "blocks")))
    if shape in ("int", "f32", "mixed"):
        kind = str(rng.choice(("ties", "bigint", "saw", "dyadic")
                              if shape != "int" else ("ties", "bigint")))
    data.UNITS = shape not in ("int", "f32", "mixed")
    xs = [data.vec(rng, n, kind) for _ in range(k)]
    ys = [data.vec(rng, n, kind) + float(rng.choice([0, 1])) * v for v in xs]
    # one pair with a constant, one identical pair
    if k > 2 and rng.integers(2):
        j = int(rng.integers(k))
        xs[j] = np.full(n, 3.0)
    if k > 3 and rng.integers(2):
        j = int(rng.integers(k))
        ys[j] = xs[j].copy()
    same = rng.integers(6) == 0
    X = shaped(rng, xs, shape)
    if same:
        Y, ys = X, xs
    else:
        other = shape if rng.integers(2) or shape not in (
            "2d", "3d", "list", "ro") else "2d"
        if shape in ("3d", "2d", "list", "ro") and other != shape:
            # correlations concatenate both lists: same kind of item
            other = {"3d": "listcol", "2d": "list", "list": "2d",
                     "ro": "list"}[shape]
        Y = shaped(rng, ys, other)
    d = {"fn": fn, "k": k, "n": n, "shape": shape, "mode": mode,
         "lane": ctx.lane}
    got = ctx.call("rowwise(%s)" % fn, dcor.rowwise, getattr(dcor, fn), X, Y,
                   **mode_kw(mode))
    dcs = [oracle.DC(u, v) for u, v in zip(xs, ys)]
    compare(ctx, fn, got, k, dcs, d)
    again = ctx.call("rowwise(%s)" % fn, dcor.rowwise, getattr(dcor, fn), X,
                     Y, **mode_kw(mode))
    a, b = np.asarray(got), np.asarray(again)
    ctx.check(a.tobytes() == b.tobytes(), "rowwise: a second identical call "
              "gives other values", "repeats", first=a, second=b, **d)
    ctx.feat("shape", shape)
    ctx.feat("mode", mode)
    ctx.feat("rows", k)
    ctx.ev("parallel_calls" if mode[0] != "NAIVE" and mode[1] in (
        None, "AUTO", "COMPILE_PARALLEL") and mode[2] in (
            None, "AUTO", "AVL") else "other_calls")
    ctx.nontrivial(fn, mode, shape, *xs, *ys)
    ctx.sample({"fn": fn, "rows": k, "n": n, "shape": shape, "mode": mode})


def k_vectors(ctx, rng, fn, k, n, p, q, e):
    """Random vectors or exponents: no optimised version, same meaning."""
    xs = [data.mat(rng, n, p, "normal") for _ in range(k)]
    ys = [data.mat(rng, n, q, "corr") for _ in range(k)]
    kw = {} if e == 1 and rng.integers(2) else {"exponent": e}
    d = {"fn": fn, "k": k, "n": n, "p": p, "q": q, "exponent": e}
    X = np.stack(xs) if rng.integers(2) else list(xs)
    Y = np.stack(ys) if rng.integers(2) else list(ys)
    dcs = [oracle.DC(u, v, exponent=e) for u, v in zip(xs, ys)]
    for m in (RM.AUTO, RM.NAIVE):
        got = ctx.call("rowwise(%s)" % fn, dcor.rowwise, getattr(dcor, fn),
                       X, Y, rowwise_mode=m, **kw)
        compare(ctx, fn, got, k, dcs, d)
    try:
        dcor.rowwise(getattr(dcor, fn), X, Y, rowwise_mode=RM.OPTIMIZED, **kw)
    except NotImplementedError:
        ctx.ev("optimized_refused")
    else:
        ctx.ev("optimized_accepted")
    ctx.nontrivial(fn, e, *xs, *ys)


def k_ragged(ctx, rng, fn, ns):
    """Pairs of different sizes."""
    xs = [data.vec(rng, n, "normal") for n in ns]
    ys = [data.vec(rng, n, "normal") + v for n, v in zip(ns, xs)]
    if rng.integers(3) == 0:
        xs = [v[:, None] for v in xs]
    dcs = [oracle.DC(u, v) for u, v in zip(xs, ys)]
    for m in (RM.AUTO, RM.NAIVE):
        got = ctx.call("rowwise(%s)" % fn, dcor.rowwise, getattr(dcor, fn),
                       xs, ys, rowwise_mode=m)
        compare(ctx, fn, got, len(ns), dcs, {"fn": fn, "ns": list(ns)})
    ctx.nontrivial(fn, *xs, *ys)


def k_generic(ctx, rng, k, n):
    """Any other dependency measure: equivalent to map."""
    xs = [data.mat(rng, n, 2, "normal") for _ in range(k)]
    ys = [data.mat(rng, n, 2, "normal") for _ in range(k)]

    def mine(a, b, *, w=1.0):
        return w * float(a[0, 0]) + float(b[-1, 1])
    for m in (RM.AUTO, RM.NAIVE):
        got = np.asarray(ctx.call("rowwise", dcor.rowwise, mine, xs, ys,
                                  rowwise_mode=m, w=2.5))
        want = np.array([mine(a, b, w=2.5) for a, b in zip(xs, ys)])
        ctx.check(got.shape == want.shape and (got == want).all(),
                  "rowwise of a user function is not map", "rows", got=got,
                  want=want)
        got = np.asarray(ctx.call("rowwise", dcor.rowwise,
                                  dcor.energy_distance, xs, ys,
                                  rowwise_mode=m))
        want = [oracle.energy(a, b) for a, b in zip(xs, ys)]
        sizes = np.array([max(np.abs(a).max(), np.abs(b).max())
                          for a, b in zip(xs, ys)])
        ctx.allclose(got, np.array(want), 1e-10 * (1 + sizes),
                     "rowwise(energy_distance)", "rows")
    ctx.nontrivial(*xs, *ys)


def k_many(ctx, rng, fn, k, n, cm):
    """Many short rows: every slice of the parallel loop gets work."""
    xs = rng.normal(size=(k, n))
    ys = np.round(rng.normal(size=(k, n)), 1) + xs
    kw = {} if cm is None else {"compile_mode": getattr(CM, cm)}
    f = getattr(dcor, fn)
    got = ctx.call("rowwise", dcor.rowwise, f, xs, ys, **kw)
    got = np.asarray(got)
    ctx.check(got.shape == (k,), "rowwise: one value per pair expected",
              "results", shape=got.shape, k=k)
    if FUNCS[fn][1] or k <= 100:
        sel = range(k)
    else:
        want = np.array([f(a, b) for a, b in zip(xs, ys)])
        ctx.allclose(got ** 2 if FUNCS[fn][2] else got,
                     want ** 2 if FUNCS[fn][2] else want, 1e-10,
                     "rowwise(%s) with many rows" % fn, "rows", k=k, n=n,
                     lane=ctx.lane)
        sel = rng.integers(0, k, size=20)
    compare(ctx, fn, got[sel], len(sel),
            [oracle.DC(xs[i], ys[i]) for i in sel],
            {"fn": fn, "k": k, "n": n, "lane": ctx.lane})
    for _ in range(3):
        b = dcor.rowwise(f, xs, ys, **kw)
        ctx.check(got.tobytes() == np.asarray(b).tobytes(), "rowwise: a "
                  "second identical call gives other values", "repeats")
    ctx.ev("parallel_calls", 4)
    ctx.nontrivial(fn, xs, ys)


def k_huge(ctx, rng, n, unbiased):
    """Millions of samples with few distinct values: closed form."""
    xv, yv = np.array([0.0, 1.0, 3.0]), np.array([-1.0, 2.0])
    p = rng.integers(1, 9, size=(3, 2)).astype(float)
    cells = rng.choice(6, size=n, p=(p / p.sum()).ravel())
    x, y = xv[cells // 2], yv[cells % 2]
    counts = np.bincount(cells, minlength=6).reshape(3, 2)
    want = oracle.weighted_dcov(xv, yv, counts, unbiased)
    f = (dcor.u_distance_covariance_sqr if unbiased
         else dcor.distance_covariance_sqr)
    got = np.asarray(ctx.call("rowwise", dcor.rowwise, f, x[None], y[None]))
    tol = TOL * (1 + n / 200.0) * 9
    ctx.check(got.shape == (1,), "rowwise: one value per pair expected",
              "results")
    ctx.close(got[0], want, tol, "rowwise: wrong value for a very large "
              "sample", "rows", n=n, counts=counts)
    one = ctx.call("f", f, x, y)
    ctx.close(one, want, tol, "wrong value for a very large sample", "rows",
              n=n, counts=counts)
    ctx.feat("n", n)
    ctx.nontrivial("huge", n, counts)


def k_nested(ctx, rng, k, n, mode):
    """A function of the caller that uses dcor, rowwise included."""
    xs, ys = rng.normal(size=(k, n)), rng.normal(size=(k, n))
    kw = {} if mode == "default" else {"rowwise_mode": RM[mode]}

    def inner(u, v):
        return float(u @ v)

    def outer(u, v):
        a = np.asarray(dcor.rowwise(inner, np.stack([u, v, u]),
                                    np.stack([v, v, u])))
        b = np.asarray(dcor.rowwise(dcor.distance_covariance_sqr,
                                    u[None], v[None]))
        return float(a.sum()) + float(b[0])
    want = [float(u @ v + v @ v + u @ u) + float(oracle.DC(u, v).cov)
            for u, v in zip(xs, ys)]
    got = []

    def body():
        got.append(ctx.call("rowwise", dcor.rowwise, outer, xs, ys, **kw))
    t = threading.Thread(target=body, daemon=True)
    t.start()
    t.join(90)
    if t.is_alive():
        ctx.viol("rowwise of a function that uses rowwise does not finish",
                 mode=mode, k=k, n=n)
    if not got:
        return
    ctx.allclose(np.asarray(got[0]), np.array(want), 1e-9 * n,
                 "rowwise of a function that uses rowwise is wrong", "rows",
                 mode=mode, k=k, n=n)
    ctx.feat("nested", mode)
    ctx.nontrivial("nested", xs, ys, mode)


def k_lengths(ctx, rng, fn, k, m, n, form):
    """Lists of different length, and empty ones."""
    f = getattr(dcor, fn) if isinstance(fn, str) else fn

    def samples(c):
        a = rng.normal(size=(c, n))
        return {"array": a, "list": list(a), "cols": a[..., None],
                "tuple": tuple(a)}[form]
    for mode in MODES:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                v = dcor.rowwise(f, samples(k), samples(m), **mode_kw(mode))
            except Exception as e:
                if k == m and mode[0] != "OPTIMIZED":
                    ctx.viol("rowwise of no samples raises", error=repr(e),
                             mode=mode, form=form)
                ctx.ev("lengths_refused")
                continue
        ctx.check(k == m, "rowwise answers for lists of different length",
                  "lengths", k=k, m=m, mode=mode, form=form, got=repr(v))
        ctx.check(np.shape(v) == (k,), "rowwise of no samples: not empty",
                  "lengths", mode=mode, form=form, got=repr(v))
    ctx.nontrivial("lengths", fn, k, m, n, form)


KINDS = {"lengths": k_lengths, "rows": k_rows, "vectors": k_vectors, "ragged": k_ragged,
         "generic": k_generic, "many": k_many, "huge": k_huge,
         "nested": k_nested}


def systematic(ctx):
    for mode in ("default", "AUTO", "NAIVE"):
        for k, n in ((1, 6), (4, 9)):
            yield "nested", {"k": k, "n": n, "mode": mode}
    if ctx.lane == "threads8":
        yield "huge", {"n": 2100000, "unbiased": False}
        for k, n in ((5000, 8), (70000, 4), (4, 1500), (12, 700)):
            for cm in (None, "COMPILE_CPU"):
                yield "many", {"fn": "distance_covariance_sqr", "k": k,
                               "n": n, "cm": cm}
        if ctx.thorough:
            yield "huge", {"n": 3500000, "unbiased": True}
            yield "huge", {"n": 4200000, "unbiased": False}
    for fn in FUNCS:
        for i, m in enumerate(MODES):
            for j, k in enumerate((1, 2, 3, 5, 8, 17)):
                yield "rows", {"fn": fn, "k": k, "n": 4 + (5 * i + 3 * j) % 19,
                               "shape": SHAPES[(i + 5 * j) % len(SHAPES)],
                               "mode": list(m)}
        for s in SHAPES:
            for m in (MODES[0], MODES[2], MODES[6], MODES[7]):
                yield "rows", {"fn": fn, "k": 4, "n": 9, "shape": s,
                               "mode": list(m)}
        yield "rows", {"fn": fn, "k": 9, "n": 150, "shape": "2d",
                       "mode": list(MODES[0])}
        for cm in (None, "COMPILE_CPU", "COMPILE_PARALLEL"):
            for k in (31, 64, 257, 1000):
                yield "many", {"fn": fn, "k": k, "n": 7, "cm": cm}
        for e in (1, 0.5, 1.5):
            yield "vectors", {"fn": fn, "k": 3, "n": 8, "p": 2, "q": 3,
                              "e": e}
            yield "vectors", {"fn": fn, "k": 2, "n": 6, "p": 1, "q": 2,
                              "e": e}
        for e in (0.5, 1.7):
            yield "vectors", {"fn": fn, "k": 3, "n": 9, "p": 1, "q": 1,
                              "e": e}
        for ns in ((5, 9), (4, 6, 4), (12, 5, 7, 7)):
            yield "ragged", {"fn": fn, "ns": list(ns)}
    for i, (k, m) in enumerate(((0, 0), (3, 2), (2, 3), (3, 1), (1, 3),
                                (0, 2), (2, 0), (1, 6), (6, 1), (4, 5))):
        for j, fn in enumerate(FUNCS):
            yield "lengths", {"fn": fn, "k": k, "m": m, "n": 6 + j, "form":
                              ("array", "list", "cols", "tuple")[(i + j) % 4]}
            yield "lengths", {"fn": fn, "k": k, "m": m, "n": 6 + j,
                              "form": "array"}
    for k in (1, 3):
        yield "generic", {"k": k, "n": 6}


def random_case(ctx, rng):
    fn = str(rng.choice(list(FUNCS)))
    u = rng.random()
    if u < 0.75:
        return "rows", {"fn": fn, "k": int(rng.integers(1, 24)),
                        "n": data.size(rng, 4, 80),
                        "shape": str(rng.choice(SHAPES)),
                        "mode": list(MODES[int(rng.integers(len(MODES)))])}
    if u < 0.85:
        return "many", {"fn": fn, "k": int(rng.integers(20, 600)),
                        "n": data.size(rng, 4, 40),
                        "cm": [None, "COMPILE_CPU", "COMPILE_PARALLEL"][
                            int(rng.integers(3))]}
    if u < 0.95:
        return "vectors", {"fn": fn, "k": int(rng.integers(1, 5)),
                           "n": data.size(rng, 4, 30),
                           "p": int(rng.integers(1, 4)),
                           "q": int(rng.integers(1, 4)),
                           "e": float(rng.choice((1, 0.5, 1.7)))}
    return "ragged", {"fn": fn, "ns": [int(v) for v in rng.integers(
        4, 20, size=int(rng.integers(2, 6)))]}
