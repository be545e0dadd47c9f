"""C06: affinely invariant distance correlation."""
import numpy as np

import data
import dcor
import oracle
from common import ALL_WAYS, VEC_WAYS, way_kw

LD = np.longdouble

data.UNITS = True


def whiten(x):
    """x times a square root of the inverse covariance, extended precision."""
    x = oracle.ld2(x)
    n, p = x.shape
    c = x - x.sum(axis=0) / LD(n)
    s = np.array([[(c[:, i] * c[:, j]).sum() for j in range(p)]
                  for i in range(p)], dtype=LD) / LD(n - 1)
    # Cholesky s = L L^T; the rows of solve(L, c^T) have unit covariance.
    low = np.zeros((p, p), dtype=LD)
    for i in range(p):
        for j in range(i + 1):
            t = s[i, j] - (low[i, :j] * low[j, :j]).sum()
            if i == j:
                if not t > 1e-12 * s[i, i]:
                    return None
                low[i, i] = np.sqrt(t)
            else:
                low[i, j] = t / low[j, j]
    z = np.zeros((p, n), dtype=LD)
    for i in range(p):
        z[i] = (c[:, i] - (low[i, :i, None] * z[:i]).sum(axis=0)) / low[i, i]
    return z.T


def cond(x):
    x = np.asarray(x, float)
    if x.ndim == 1:
        x = x[:, None]
    return np.linalg.cond(np.cov(x, rowvar=False).reshape(x.shape[1], -1))


def sample(rng, n, p, kind):
    x = data.mat(rng, n, p, kind) if p else data.vec(rng, n, kind)
    return x


def k_value(ctx, rng, n, p, q, kx, ky):
    x, y = sample(rng, n, p, kx), sample(rng, n, q, ky)
    if rng.integers(2):
        y = y + 0.5 * np.std(y) / (np.std(x) + 1e-300) * (
            x if x.shape == y.shape else x.reshape(n, -1)[:, :1] if y.ndim > 1
            else x.reshape(n, -1)[:, 0])
    wx, wy = whiten(x), whiten(y)
    if wx is None or wy is None:
        ctx.inconclusive()
    kc = max(cond(x), cond(y))
    if not kc < 1e7:
        ctx.inconclusive()
    dc = oracle.DC(wx, wy)
    want = oracle.corr_from(dc.cov, dc.vx, dc.vy)
    amp = dc.mx ** 2 / dc.vx + dc.my ** 2 / dc.vy
    off = max(1, np.abs(x).max() / np.std(x, axis=0).min(),
              np.abs(y).max() / np.std(y, axis=0).min())
    tol = 1e-13 * (kc + 10) * amp * off * 10 + 1e-10
    if tol > 1e-3:
        ctx.inconclusive()
    one = p <= 1 and q <= 1 and n > 3
    for way in (ALL_WAYS if one else VEC_WAYS):
        kw = way_kw(rng, way)
        d = {"way": way, "n": n, "x": x, "y": y}
        r = ctx.call("af_inv_sqr", dcor.distance_correlation_af_inv_sqr, x, y,
                     **kw)
        r = ctx.close(r, want, tol, "distance_correlation_af_inv_sqr differs "
                      "from the correlation of the standardized samples", **d)
        s = ctx.num(ctx.call("af_inv", dcor.distance_correlation_af_inv, x, y,
                             **kw), "af_inv")
        ctx.check(0 <= s <= 1 + 1e-6, "af_inv out of [0, 1]", "range",
                  got=float(s), **d)
        ctx.close(s * s, max(want, 0), tol, "distance_correlation_af_inv is "
                  "not the root of the square", **d)
    if p <= 1 and q <= 1:
        r = ctx.num(ctx.call("dcor", dcor.distance_correlation_sqr, x, y),
                    "dcor")
        ctx.close(r, want, tol, "for random variables it must be the usual "
                  "distance correlation", x=x, y=y)
    # affine invariance, through the public interface only
    def affine(v):
        m = v if v.ndim > 1 else v[:, None]
        k = m.shape[1]
        u, _ = np.linalg.qr(rng.normal(size=(k, k)))
        w, _ = np.linalg.qr(rng.normal(size=(k, k)))
        sv = np.exp(rng.uniform(-2.5, 2.5, size=k))
        m = m @ (u * sv @ w) + rng.normal(size=k) * np.abs(m).max()
        return m if v.ndim > 1 else m[:, 0]

    x2, y2 = affine(x), affine(y)
    k2 = max(cond(x2), cond(y2))
    off2 = max(off, np.abs(x2).max() / np.std(x2, axis=0).min(),
               np.abs(y2).max() / np.std(y2, axis=0).min())
    t2 = 1e-13 * (k2 + kc + 10) * amp * off2 * 20 + 1e-9
    if t2 < 1e-4:
        r2 = ctx.call("af_inv_sqr", dcor.distance_correlation_af_inv_sqr, x2,
                      y2)
        ctx.close(r2, want, t2, "af_inv_sqr changes with an affine map",
                  "invariance", n=n, x=x, y=y, x2=x2, y2=y2)
        r3 = ctx.call("af_inv", dcor.distance_correlation_af_inv, y2, x)
        ctx.close(ctx.num(r3, "af") ** 2, max(want, 0), t2, "af_inv changes "
                  "with an affine map or the order of the arguments",
                  "invariance", n=n, x=x, y=y, y2=y2)
    ctx.feat("dims", (p, q))
    ctx.feat("n", n)
    ctx.nontrivial(x, y)
    ctx.sample({"n": n, "dims": (p, q), "af_inv_sqr": float(want),
                "cond": float(kc)})


def k_self(ctx, rng, n, p):
    """y an affine image of x: correlation one."""
    x = data.mat(rng, n, p, "corr" if p > 1 else "normal")
    a = rng.normal(size=(p, p)) + 2 * np.eye(p)
    if np.linalg.cond(a) > 1e4 or cond(x) > 1e6:
        ctx.inconclusive()
    y = x @ a + 3 * float(np.abs(x).max())
    r = ctx.call("af_inv", dcor.distance_correlation_af_inv, x, y)
    ctx.close(r, 1, 1e-6, "af_inv of an affine image is not one", x=x, y=y)
    ctx.nontrivial(x, y)


def k_constant(ctx, rng, n, p):
    """A constant sample has no dependence (zero)."""
    x = data.mat(rng, n, p, "normal")
    c = np.full((n, 1), float(rng.choice([0.0, 1.0, -2.5])))
    for a, b in ((x, c), (c, x), (c, c)):
        r = ctx.call("af_inv", dcor.distance_correlation_af_inv, a, b)
        ctx.close(r, 0, 0, "af_inv with a constant is not zero", "constant",
                  a=a, b=b)


def k_offset(ctx, rng, n, p, q, bits):
    """Samples far from the origin: translations by a power of two are exact,
    so only the rounding of the far coordinates may be seen."""
    def grid(k):
        m = np.round(rng.normal(size=(n, k)) * 2.0 ** 12) / 2.0 ** 12
        return m if k > 1 or rng.integers(2) else m[:, 0]
    x, y = grid(p), grid(q)
    if rng.integers(2):
        y = y + (x if x.shape == y.shape
                 else x.reshape(n, -1)[:, :1].reshape((n,) + (1,) *
                                                      (y.ndim - 1)))
    wx, wy = whiten(x), whiten(y)
    if wx is None or wy is None:
        ctx.inconclusive()
    kc = max(cond(x), cond(y))
    if not kc < 1e3:
        ctx.inconclusive()
    dc = oracle.DC(wx, wy)
    want = oracle.corr_from(dc.cov, dc.vx, dc.vy)
    amp = dc.mx ** 2 / dc.vx + dc.my ** 2 / dc.vy
    x2 = x + 2.0 ** bits * float(rng.choice([-1, 1]))
    y2 = y + 2.0 ** bits * float(rng.choice([-1, 0, 1]))
    tol = 2.0 ** (bits - 52) * 64 * (p + q) * np.sqrt(kc) * amp + 1e-10
    if tol > 1e-3:
        ctx.inconclusive()
    one = p <= 1 and q <= 1 and n > 3
    for way in (ALL_WAYS if one else VEC_WAYS):
        kw = way_kw(rng, way)
        r = ctx.call("af_inv_sqr", dcor.distance_correlation_af_inv_sqr, x2,
                     y2, **kw)
        ctx.close(r, want, tol, "af_inv_sqr changes with a translation",
                  "invariance", way=way, bits=bits, x=x2, y=y2)
    ctx.feat("offset_bits", bits)
    ctx.nontrivial(x2, y2)


def k_lattice(ctx, rng, n, p, q, bits):
    """Large samples with few distinct points, also far from the origin."""
    xv, yv, i, j = oracle.lattice(rng, n, p, q, a=25, b=20,
                                   last=bits < 4)
    xv, yv = (np.round(v * 2.0 ** 12) / 2.0 ** 12 + 2.0 ** bits
              for v in (xv, yv))
    x, y = xv[i], yv[j]
    wx, wy = whiten(x), whiten(y)
    kc = max(cond(x - 2.0 ** bits), cond(y - 2.0 ** bits))
    first = [{int(k): m for m, k in enumerate(v)} for v in (i, j)]
    zx = np.array([wx[first[0].get(k, 0)] for k in range(len(xv))])
    zy = np.array([wy[first[1].get(k, 0)] for k in range(len(yv))])
    dc = oracle.LatticeDC(zx, zy, i, j)
    want = oracle.corr_from(dc.cov, dc.vx, dc.vy)
    amp = dc.mx ** 2 / dc.vx + dc.my ** 2 / dc.vy
    tol = (2.0 ** (bits - 52) * 64 * (p + q) * np.sqrt(kc) * amp + 1e-10
           + 1e-11 * (1 + n / 200.0) * amp)
    if not tol < 1e-3:
        ctx.inconclusive()
    r = ctx.call("af_inv_sqr", dcor.distance_correlation_af_inv_sqr, x, y)
    ctx.close(r, want, tol, "distance_correlation_af_inv_sqr of a large "
              "sample differs from the correlation of the standardized "
              "samples", bits=bits, n=n, p=p, q=q)
    r = ctx.num(ctx.call("af_inv", dcor.distance_correlation_af_inv, y, x),
                "af_inv")
    ctx.close(r * r, want, tol, "distance_correlation_af_inv of a large "
              "sample is not the root of the square", bits=bits, n=n, p=p,
              q=q)
    ctx.feat("n", n)
    ctx.feat("offset_bits", bits)
    ctx.nontrivial(xv, yv, i, j)


KINDS = {"lattice": k_lattice, "offset": k_offset, "value": k_value, "self": k_self, "constant": k_constant}


def systematic(ctx):
    for n, p, q in ((4200, 2, 3), (5300, 2, 1), (8300, 1, 1)):
        for bits in (1, 22, 25):
            yield "lattice", {"n": n, "p": p, "q": q, "bits": bits}
    yield "lattice", {"n": 66000, "p": 1, "q": 1, "bits": 12}
    for bits in (0, 6, 12, 18, 20, 22, 24, 25):
        for n, p, q in ((8, 1, 1), (12, 2, 1), (50, 2, 2), (50, 1, 1),
                        (60, 3, 4), (300, 2, 2)):
            yield "offset", {"n": n, "p": p, "q": q, "bits": bits}
    for n, p, q in ((2500, 0, 0), (1500, 2, 3), (600, 60, 40),
                    (1200, 1, 130)):
        yield "value", {"n": n, "p": p, "q": q, "kx": "normal",
                        "ky": "normal"}
    yield "self", {"n": 1100, "p": 3}
    yield "self", {"n": 300, "p": 50}
    for n in (5, 6, 8, 12, 16, 17, 33, 64, 100, 200, 400):
        for p, q in ((0, 0), (1, 1), (1, 2), (2, 1), (2, 2), (3, 3), (5, 2),
                     (4, 8)):
            if n > max(p, q) + 2:
                for k in ("normal", "int" if p else "ties",
                          "scales" if p else "offset"):
                    yield "value", {"n": n, "p": p, "q": q,
                                    "kx": k, "ky": "normal"}
    for n in (6, 10, 30, 101):
        for p in (1, 2, 3, 4):
            yield "self", {"n": n, "p": p}
            yield "constant", {"n": n, "p": p}
    yield "value", {"n": 900, "p": 3, "q": 2, "kx": "normal", "ky": "heavy"}
    yield "value", {"n": 300, "p": 20, "q": 10, "kx": "normal", "ky": "corr"}


def random_case(ctx, rng):
    p, q = int(rng.integers(0, 7)), int(rng.integers(0, 7))
    n = data.size(rng, max(p, q) + 4, 150)
    if rng.random() < 0.1:
        return "offset", {"n": n, "p": max(p, 1), "q": max(q, 1),
                          "bits": int(rng.integers(0, 26))}
    if rng.random() < 0.15:
        return "self", {"n": n, "p": max(p, 1)}
    return "value", {
        "n": n, "p": p, "q": q,
        "kx": str(rng.choice(data.MAT_KINDS if p else data.GOOD_KINDS)),
        "ky": str(rng.choice(data.MAT_KINDS if q else data.GOOD_KINDS))}
