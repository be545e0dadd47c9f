"""C07: pairwise distances."""
import numpy as np

import data
import dcor
import oracle

pd = dcor.distances.pairwise_distances

data.UNITS = True


def spell(rng, e):
    return ({} if e == 1 and rng.integers(2) else
            {"exponent": (e, np.float64(e))[int(rng.integers(2))]})


def verify(ctx, rng, x, y, e, what, rel=1e-10, xa=None, ya=None):
    """x, y: float64/any values; xa, ya: what is passed (same values)."""
    xa = x if xa is None else xa
    kw = spell(rng, e)
    d = {"exponent": e, "desc": what, "x": x, "y": y if y is not None else 0}
    want = oracle.dist(x, y, exponent=e)
    if y is None:
        form = int(rng.integers(3))
        got = ctx.call("pairwise_distances",
                       lambda: pd(xa, **kw) if form == 0 else
                       pd(xa, None, **kw) if form == 1 else pd(xa, xa, **kw))
    else:
        ya = y if ya is None else ya
        got = ctx.call("pairwise_distances", lambda: pd(xa, ya, **kw))
    ctx.allclose(got, want, rel * max(e, 1) * want,
                 "pairwise_distances is not the matrix of distances", **d)
    g = np.asarray(got, dtype=float)
    zero = np.asarray(want == 0)
    ctx.check((g[zero] == 0).all() and (g >= 0).all(),
              "distance of equal points is not zero, or negative", **d)
    if y is None:
        ctx.check((g == g.T).all() or np.allclose(g, g.T, rtol=1e-14,
                                                  atol=0),
                  "distances within a set are not symmetric", **d)
        ctx.check((np.diag(g) == 0).all(), "diagonal is not zero", **d)
        if e <= 1 and len(g) > 2:
            i, j, k = rng.integers(0, len(g), size=(3, 200))
            ctx.check((g[i, k] <= (g[i, j] + g[j, k]) * (1 + 1e-12)).all(),
                      "triangle inequality", **d)
    if want.max() > 0:
        ctx.nontrivial(x, y if y is not None else 0, e)


def k_one(ctx, rng, n, p, e, kind=None, lay="C"):
    x = data.mat(rng, n, p, kind) if p else data.vec(rng, n, kind or "normal")
    ctx.feat("layout", lay)
    ctx.feat("exponent", e)
    verify(ctx, rng, x, None, e, kind, xa=data.layout(x, lay))
    # A copy instead of the same object must give the same matrix.
    verify(ctx, rng, x, x.copy(), e, kind)
    ctx.sample({"n": n, "p": p, "exponent": e, "layout": lay})


def k_two(ctx, rng, n, m, p, e, kind=None, lay="C"):
    x = data.mat(rng, n, p, kind) if p else data.vec(rng, n, kind or "normal")
    y = data.mat(rng, m, p, kind) if p else data.vec(rng, m, "ties")
    if rng.integers(2) and n > 1:
        # shared points, out of order
        y[rng.integers(m)] = x[rng.integers(n)]
    if p == 1 and rng.integers(3) == 0:
        x = x[:, 0]
    ctx.feat("shape", (n > m) - (n < m))
    verify(ctx, rng, x, y, e, kind, xa=data.layout(x, lay),
           ya=data.layout(y, str(rng.choice(data.LAYOUTS))))
    # views of one buffer are still two different sets of points
    for _ in range(2):
        xa, ya = data.shared(rng, x, y)
        if np.may_share_memory(xa, ya):
            ctx.ev("views_of_one_buffer")
        verify(ctx, rng, x, y, e, kind, xa=xa, ya=ya)
    # the same points in reverse, as a view of the first set
    verify(ctx, rng, x, x[::-1].copy(), e, kind, ya=x[::-1])
    verify(ctx, rng, x, x[n // 2:].copy(), e, kind, ya=x[n // 2:])


def k_close(ctx, rng, n, p, e):
    """Nearly equal points far from the origin keep relative accuracy."""
    c = rng.normal(size=p) * 1e6
    x = c + rng.integers(-8, 9, size=(n, p)) * 2.0 ** -10
    verify(ctx, rng, x, None, e, "close points", rel=1e-9)
    y = c + rng.integers(-8, 9, size=(n + 3, p)) * 2.0 ** -10
    verify(ctx, rng, x, y, e, "close points", rel=1e-9)


def k_types(ctx, rng, n, m, p, dt, e):
    """Integer types: no overflow, no wrap-around."""
    info = np.iinfo(dt) if dt != "bool" else None
    if dt == "bool":
        x = rng.integers(0, 2, size=(n, p)).astype(bool)
        y = rng.integers(0, 2, size=(m, p)).astype(bool)
    else:
        lo, hi = max(info.min, -2**40), min(info.max, 2**40)
        x = rng.integers(lo, hi, size=(n, p), endpoint=True).astype(dt)
        y = rng.integers(lo, hi, size=(m, p), endpoint=True).astype(dt)
    fx, fy = x.astype(np.longdouble), y.astype(np.longdouble)
    verify(ctx, rng, fx, None, e, dt, xa=x)
    verify(ctx, rng, fx, fy, e, dt, xa=x, ya=y)
    verify(ctx, rng, fx, fy, e, dt, xa=x, ya=y.astype(float))
    ctx.feat("dtype", dt)


def k_large(ctx, rng, n, m, p, e):
    x, y = rng.normal(size=(n, p)), rng.normal(size=(m, p))
    # some points of the two sets nearly coincide, far from the origin
    x, y = x + 64.0, y + 64.0
    k = min(n, m) // 2
    y[:k] = x[:k] + rng.normal(size=(k, p)) * 2.0 ** -30
    x[1::7] = x[0] + rng.normal(size=x[1::7].shape) * 2.0 ** -30
    verify(ctx, rng, x, y, e, "large")
    if n < 4000:
        verify(ctx, rng, x, None, e, "large")


def k_largest(ctx, rng, n, p, e):
    """One large set: compared with the definition in blocks."""
    x = rng.normal(size=(n, p)) + 8.0
    x[1::7] = x[0] + rng.normal(size=x[1::7].shape) * 2.0 ** -30
    kw = spell(rng, e)
    for xa in ((x, None), (x, x.copy())):
        g = np.asarray(ctx.call("pairwise_distances", pd, *xa, **kw))
        ctx.check(g.shape == (n, n), "wrong shape", n=n)
        for i in range(0, n, 500):
            w = oracle.dist(x[i:i + 500], x, exponent=e)
            ctx.allclose(g[i:i + 500], w, 1e-10 * max(e, 1) * w,
                         "pairwise_distances is not the matrix of distances",
                         exponent=e, n=n, p=p, rows=(i, i + 500))
    ctx.feat("n", n)
    ctx.nontrivial(x, e)


KINDS = {"one": k_one, "two": k_two, "close": k_close, "types": k_types,
         "large": k_large,
         "largest": k_largest}
EXP = (1, 0.5, 1.5, 2, 0.1, 1.99, 1.001, 0.999)


def systematic(ctx):
    for n, m, p in ((4200, 3, 2), (3, 4200, 2), (20000, 5, 2), (5, 20000, 3),
                    (70000, 2, 1), (2, 70000, 2), (5100, 200, 1),
                    (10, 8, 5000)):
        for e in (1, 0.5):
            yield "large", {"n": n, "m": m, "p": p, "e": e}
    yield "largest", {"n": 4200, "p": 2, "e": 1}
    yield "largest", {"n": 5100, "p": 1, "e": 1.5}
    yield "large", {"n": 2100, "m": 2300, "p": 2, "e": 1}
    yield "large", {"n": 3100, "m": 1500, "p": 1, "e": 0.5}
    for n, m, p in ((2100, 1100, 2), (1100, 2100, 3), (2500, 3, 1),
                    (3, 2500, 2), (40, 30, 1100)):
        yield "large", {"n": n, "m": m, "p": p, "e": 1}
        yield "large", {"n": n, "m": m, "p": p, "e": 0.5}
    for e in EXP:
        for n in (1, 2, 3, 4, 7, 16, 33):
            for p in (0, 1, 2, 3, 10):
                yield "one", {"n": n, "p": p, "e": e}
        for n, m in ((1, 1), (1, 5), (5, 1), (2, 3), (3, 2), (7, 7), (4, 4),
                     (30, 11), (11, 30)):
            for p in (0, 1, 2, 5):
                yield "two", {"n": n, "m": m, "p": p, "e": e}
        for p in (1, 2, 4):
            yield "close", {"n": 12, "p": p, "e": e}
    for lay in data.LAYOUTS:
        for p in (0, 1, 3):
            yield "one", {"n": 9, "p": p, "e": 1, "lay": lay}
            yield "two", {"n": 9, "m": 6, "p": p, "e": 0.7, "lay": lay}
    for k in data.MAT_KINDS:
        yield "one", {"n": 20, "p": 3, "e": 1, "kind": k}
        yield "two", {"n": 20, "m": 9, "p": 3, "e": 1.3, "kind": k}
    for dt in ("bool", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8"):
        for p in (1, 2, 4):
            for e in (1, 0.5, 1.5):
                yield "types", {"n": 8, "m": 5, "p": p, "dt": dt, "e": e}
    for n, m, p in ((700, 300, 2), (300, 800, 5), (1200, 50, 1),
                    (64, 64, 300), (257, 255, 33)):
        yield "large", {"n": n, "m": m, "p": p, "e": 1}
    yield "large", {"n": 400, "m": 300, "p": 3, "e": 1.3}


def random_case(ctx, rng):
    e = float(rng.choice(EXP)) if rng.integers(2) else float(
        rng.uniform(0.05, 2))
    e = 1 if e == 1 else e
    n, m = data.size(rng, 1, 120), data.size(rng, 1, 120)
    p = int(rng.integers(0, 12))
    k = None if not p else str(rng.choice(data.MAT_KINDS))
    lay = str(rng.choice(data.LAYOUTS))
    u = rng.random()
    if u < 0.35:
        return "one", {"n": n, "p": p, "e": e, "kind": k, "lay": lay}
    if u < 0.75:
        return "two", {"n": n, "m": m, "p": p, "e": e, "kind": k, "lay": lay}
    if u < 0.85:
        return "close", {"n": n, "p": max(1, p), "e": e}
    return "types", {"n": n, "m": m, "p": max(1, p), "e": e, "dt": str(
        rng.choice(("bool", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8")))}
