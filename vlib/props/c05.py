"""C05: invariance to translations, rotations, scale and sample order."""
import warnings

import numpy as np

import data
import dcor
import oracle
from common import (ALL_WAYS, BIG_WAYS, TOL, VEC_WAYS, corr_parts, cov_tol, way_kw)


def transform(rng, x, exact):
    """A similarity of the sample space: (new sample, scale, description)."""
    p = 1 if x.ndim == 1 else x.shape[1]
    what = rng.choice(["translate", "scale", "rotate", "all"])
    s, y = 1.0, x
    size = float(np.abs(x).max()) or 1.0
    if what in ("rotate", "all") and not exact:
        if p == 1:
            y = -y
        else:
            q, _ = np.linalg.qr(rng.normal(size=(p, p)))
            y = y @ q
    if what in ("scale", "all"):
        s = float(rng.choice([0.5, 2.0, 0.125, 8.0, -1.0, -4.0, 3.7, 1e-4,
                              2.0 ** 30, 2.0 ** -30]))
        y = y * s
    if what in ("translate", "all"):
        c = rng.normal(size=p) * size * abs(s) * float(
            rng.choice([1, 10, 100]))
        y = y + (c[0] if x.ndim == 1 else c)
    return np.ascontiguousarray(y), abs(s), what


def k_similarity(ctx, rng, n, p, q, e, kx=None):
    x = data.mat(rng, n, p, kx) if p else data.vec(rng, n, kx or "normal")
    y = data.mat(rng, n, q) if q else data.vec(
        rng, n, str(rng.choice(data.GOOD_KINDS)))
    x2, sx, wx = transform(rng, x, False)
    y2, sy, wy = transform(rng, y, False)
    perm = rng.permutation(n) if rng.integers(2) else np.arange(n)
    x2, y2 = x2[perm], y2[perm]
    ctx.feat("transform", (wx, wy))
    if n > 9000:
        dc, dc2 = oracle.FastDC(x, y), oracle.FastDC(x2, y2)
    else:
        dc = oracle.DC(x, y, exponent=e)
        dc2 = oracle.DC(x2, y2, exponent=e)
    if dc.mx == 0 or dc.my == 0:
        ctx.inconclusive()
    # rounding of the transformed coordinates themselves
    ex = 1e-15 * np.abs(x2).max() * max(1, p) / (dc2.mx ** (1 / e) + 1e-300)
    ey = 1e-15 * np.abs(y2).max() * max(1, q) / (dc2.my ** (1 / e) + 1e-300)
    if e < 1:
        ex, ey = ex ** e, ey ** e
    k = sx ** e * sy ** e
    base = cov_tol(dc) * k + 8 * (ex + ey) * dc2.mx * dc2.my
    one = p <= 1 and q <= 1 and e == 1 and n > 3
    ways = BIG_WAYS if n > 9000 else ALL_WAYS if one else VEC_WAYS
    for way in [ways[i] for i in rng.permutation(len(ways))[:3]]:
        kw = {**way_kw(rng, way), "exponent": e}
        d = {"way": way, "transform": (wx, wy), "sx": sx, "sy": sy, "x": x,
             "y": y, "x2": x2, "y2": y2}
        for name, g in (("distance_covariance_sqr", 1),
                        ("u_distance_covariance_sqr", 20)):
            f = getattr(dcor, name)
            a = ctx.num(ctx.call(name, f, x, y, **kw), name)
            b = ctx.num(ctx.call(name, f, x2, y2, **kw), name)
            ctx.close(b, a * k, 2 * g * base, "%s does not follow a "
                      "translation, rotation, scale or reordering" % name,
                      **d)
        for name, bc in (("distance_correlation_sqr", False),
                         ("distance_correlation", False),
                         ("u_distance_correlation_sqr", True)):
            cp, cp2 = corr_parts(dc, bc), corr_parts(dc2, bc)
            if cp is None or cp2 is None:
                continue
            cov, vx, vy = dc.get(bc)
            amp = 8 * (ex + ey) * (
                dc.mx * dc.my / np.sqrt(abs(vx * vy))
                + dc.mx ** 2 / abs(vx) + dc.my ** 2 / abs(vy))
            if amp > 1e-3:
                continue
            f = getattr(dcor, name)
            a = ctx.num(ctx.call(name, f, x, y, **kw), name)
            b = ctx.num(ctx.call(name, f, x2, y2, **kw), name)
            if name == "distance_correlation":
                a, b = a * a, b * b
            ctx.close(b, a, 2 * (cp[1] + cp2[1] + amp), "%s is not invariant"
                      % name, **d)
    ctx.nontrivial(x, y, x2, y2)
    ctx.sample({"n": n, "dims": (p, q), "transform": (wx, wy)})


def k_order(ctx, rng, n, p, e):
    """Every public statistic only depends on the set of instances."""
    x, y, z = (data.mat(rng, n, p, "normal") for _ in range(3))
    y = y + 0.5 * x
    perm = rng.permutation(n)
    fns = [
        ("distance_correlation", lambda a, b, c: dcor.distance_correlation(
            a, b, exponent=e)),
        ("distance_covariance", lambda a, b, c: dcor.distance_covariance(
            a, b, exponent=e)),
        ("energy_distance", lambda a, b, c: dcor.energy_distance(
            a, b, exponent=e)),
        ("energy_distance U", lambda a, b, c: dcor.energy_distance(
            a, b, exponent=e, estimation_stat="u")),
        ("partial_distance_covariance",
         lambda a, b, c: dcor.partial_distance_covariance(a, b, c)),
        ("partial_distance_correlation",
         lambda a, b, c: dcor.partial_distance_correlation(a, b, c)),
        ("distance_covariance_test",
         lambda a, b, c: dcor.independence.distance_covariance_test(
             a, b, exponent=e).statistic),
        ("partial_distance_covariance_test",
         lambda a, b, c: dcor.independence.partial_distance_covariance_test(
             a, b, c, exponent=e).statistic),
        ("t_statistic",
         lambda a, b, c: dcor.independence.distance_correlation_t_statistic(
             a, b)),
        ("energy_test", lambda a, b, c: dcor.homogeneity.energy_test(
            a, b, c, exponent=e).statistic),
    ]
    if n > 3 * p + 3:
        fns.append(("af_inv", lambda a, b, c:
                    dcor.distance_correlation_af_inv(a, b)))
    for name, f in fns:
        a = ctx.num(ctx.call(name, f, x, y, z), name)
        b = ctx.num(ctx.call(name, f, x[perm], y[perm], z[perm]), name)
        ctx.close(b, a, 1e-8 * (1 + abs(a)), "%s depends on the order of the "
                  "instances" % name, n=n, p=p, x=x, y=y, z=z)
        if name.startswith("energy"):
            b = ctx.num(ctx.call(name, f, x[perm], y, z[::-1]), name)
            ctx.close(b, a, 1e-8 * (1 + abs(a)), "%s depends on the order of "
                      "the instances of one sample" % name, n=n, p=p)
            # common rigid motion and scale
            qm, _ = np.linalg.qr(rng.normal(size=(p, p)))
            t = rng.normal(size=p) * 5
            s = float(rng.choice([0.5, 10.0, 2.0 ** 40, 2.0 ** -40, 1e-15]))
            b = ctx.num(ctx.call(name, f, *(s * ((v @ qm) + t)
                                            for v in (x, y, z))), name)
            ctx.close(b, a * s ** e, 1e-8 * (1 + abs(a)) * s ** e,
                      "%s does not follow a common similarity" % name, n=n,
                      p=p)
        elif n >= 8:
            # a similarity of its own for each sample
            v3, k = [], []
            for v in (x, y, z):
                qm, _ = np.linalg.qr(rng.normal(size=(p, p)))
                k.append(float(rng.choice([0.25, 1.0, 10.0, 2.0 ** 40,
                                           2.0 ** -40, 1e-15])))
                v3.append(k[-1] * ((v @ qm) + rng.normal(size=p) * 5))
            m = 1.0
            if name == "distance_covariance":
                m = (k[0] * k[1]) ** (e / 2)
            elif name == "partial_distance_covariance":
                m = k[0] * k[1]
            elif name.endswith("covariance_test"):
                m = (k[0] * k[1]) ** e
            b = ctx.num(ctx.call(name, f, *v3), name)
            ctx.close(b, a * m, 1e-7 * (1 + abs(a)) * m, "%s does "
                      "not follow a similarity of each sample" % name, n=n,
                      p=p, scales=k)
    ctx.nontrivial(x, y, z, e)


def orders(rng, x, y):
    """Orders of the instances that algorithms might take for sorted."""
    n = len(x)
    sx, sy = np.argsort(x, kind="stable"), np.argsort(y, kind="stable")
    near = sx.copy()
    for i in range(0, n - 1, 2):
        if rng.integers(2):
            near[i], near[i + 1] = near[i + 1], near[i]
    moved = np.delete(sx, n // 3)
    moved = np.insert(moved, int(rng.integers(0, n)), sx[n // 3])
    jitter = sx[np.argsort(np.arange(n) + rng.normal(size=n) * 3)]
    last = np.concatenate([sx[1:], sx[:1]])
    return {
        "sorted by x": sx, "reversed": sx[::-1], "sorted by y": sy,
        "reversed y": sy[::-1], "neighbours swapped": near,
        "one instance moved": moved, "roughly sorted": jitter,
        "roughly reversed": jitter[::-1],
        "smallest last": last, "largest first": np.roll(sx, 1),
        "rotated": np.roll(sx, n // 2), "up and down": np.concatenate(
            [sx[::2], sx[1::2][::-1]]),
        "interleaved": np.concatenate([sx[::2], sx[1::2]]),
        "two runs": np.concatenate([np.sort(sx[: n // 2]),
                                    sx[n // 2:]]),
        "random": rng.permutation(n)}


def k_orders(ctx, rng, n, kx, ky, nways):
    """Sorted, nearly sorted and structured orders give the same result."""
    x = data.vec(rng, n, kx)
    y = data.vec(rng, n, ky)
    if rng.integers(2):
        y = y + x * float(rng.choice([0.5, -0.5]))
    dc = oracle.DC(x, y)
    if not dc.mx or not dc.my:
        ctx.inconclusive()
    tol = cov_tol(dc)
    f = TOL * (1 + n / 200.0)
    ways = [ALL_WAYS[i] for i in rng.permutation(len(ALL_WAYS))[:nways]]
    for way in ways:
        kw = way_kw(rng, way)
        for desc, o in orders(rng, x, y).items():
            a, b = np.ascontiguousarray(x[o]), np.ascontiguousarray(y[o])
            d = {"way": way, "order": desc, "x": a, "y": b}
            ctx.feat("order", desc)
            s = ctx.call("stats", dcor.distance_stats_sqr, a, b, **kw)
            u = ctx.call("u", dcor.u_distance_covariance_sqr, a, b, **kw)
            for v, w, t, nm in (
                    (s.covariance_xy, dc.get(False)[0], tol, "covariance"),
                    (s.variance_x, dc.get(False)[1], f * dc.mx ** 2,
                     "variance of x"),
                    (s.variance_y, dc.get(False)[2], f * dc.my ** 2,
                     "variance of y"),
                    (u, dc.get(True)[0], 20 * tol, "unbiased covariance")):
                ctx.close(v, w, t, "the %s depends on the order of the "
                          "instances" % nm, **d)
    ctx.nontrivial(x, y)


def k_extreme(ctx, rng, bits, name, way):
    """Fixed samples in extreme units. The product of the variances (a
    fourth power) overflows or underflows, see known_findings.json: zero is
    that finding, any other value a new one."""
    i = np.arange(10.0)
    x, y = np.sin(i * i), np.sin(i * i) + np.cos(3 * i)
    f, kw = getattr(dcor, name), way_kw(rng, way)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        want = ctx.num(ctx.call(name, f, x, y, **kw), name)
        got = ctx.num(ctx.call(name, f, x * 2.0 ** bits, y * 2.0 ** bits,
                               **kw), name)
    ctx.ev("extreme_units")
    if got == 0 and abs(bits) > 250:
        ctx.viol("%s is zero in extreme units" % name, key="extreme-%s"
                 % ("large" if bits > 0 else "small"), bits=bits, way=way)
    ctx.close(got, want, 1e-9, "%s changes in extreme units" % name,
              bits=bits, way=way)


KINDS = {"extreme": k_extreme, "orders": k_orders, "similarity": k_similarity, "order": k_order}


def systematic(ctx):
    for bits in (270, -300):
        for name in ("distance_correlation", "distance_correlation_sqr",
                     "u_distance_correlation_sqr"):
            for way in (("naive", "AUTO"), ("avl", "AUTO"),
                        ("mergesort", "AUTO")):
                yield "extreme", {"bits": bits, "name": name, "way": way}
    for bits in (120, -120, 200, -200):
        yield "extreme", {"bits": bits, "name": "distance_correlation",
                          "way": ("auto", "AUTO")}
    for i, n in enumerate((4, 5, 8, 15, 16, 33, 100, 250, 513, 1030, 2100)):
        for j in range(3 if n < 600 else 1):
            yield "orders", {
                "n": n, "nways": 11 if n < 600 else 6,
                "kx": data.GOOD_KINDS[(i + 3 * j) % len(data.GOOD_KINDS)],
                "ky": data.GOOD_KINDS[(i + j) % len(data.GOOD_KINDS)]}
        if n > 500:
            yield "orders", {"n": n, "nways": 11, "kx": "normal",
                             "ky": "normal"}
    for n in (600, 1100, 2100, 20000, 66000):
        yield "similarity", {"n": n, "p": 0, "q": 0, "e": 1, "kx": "normal"}
    yield "similarity", {"n": 1100, "p": 2, "q": 3, "e": 1}
    yield "similarity", {"n": 40, "p": 60, "q": 90, "e": 1}
    yield "order", {"n": 600, "p": 1, "e": 1}
    yield "order", {"n": 1100, "p": 2, "e": 1}
    for i, n in enumerate(range(4, 50)):
        yield "similarity", {
            "n": n, "p": 0, "q": 0, "e": 1,
            "kx": data.GOOD_KINDS[i % len(data.GOOD_KINDS)]}
        yield "similarity", {"n": n, "p": 1 + i % 5, "q": 1 + i % 3,
                             "e": (1, 0.5, 1.5)[i % 3]}
    for k in data.GOOD_KINDS:
        for n in (8, 17, 64):
            yield "similarity", {"n": n, "p": 0, "q": 0, "e": 1, "kx": k}
    for n in (5, 6, 12, 33, 100):
        for p in (1, 2, 4):
            for e in (1, 0.6, 1.4):
                yield "order", {"n": n, "p": p, "e": e}


def random_case(ctx, rng):
    u = rng.random()
    if u < 0.15:
        return "orders", {"n": data.size(rng, 4, 300), "nways": 3,
                          "kx": str(rng.choice(data.GOOD_KINDS)),
                          "ky": str(rng.choice(data.GOOD_KINDS))}
    if u < 0.5:
        return "similarity", {"n": data.size(rng, 4, 200), "p": 0, "q": 0,
                              "e": 1, "kx": str(rng.choice(data.GOOD_KINDS))}
    if u < 0.8:
        return "similarity", {"n": data.size(rng, 4, 100),
                              "p": int(rng.integers(1, 7)),
                              "q": int(rng.integers(1, 7)),
                              "e": float(rng.choice((1, 0.3, 0.8, 1.5)))}
    return "order", {"n": data.size(rng, 5, 100), "p": int(rng.integers(1, 5)),
                     "e": float(rng.choice((1, 0.5, 1.3)))}
