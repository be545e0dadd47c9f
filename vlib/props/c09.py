"""C09: partial distance covariance and correlation."""
import numpy as np

import data
import dcor
import oracle

LD = np.longdouble

data.UNITS = True


class Partial:
    def __init__(self, x, y, z, exponent=1):
        a, b, c = (oracle.dist(v, exponent=exponent) for v in (x, y, z))
        self.m = (a.max(), b.max(), c.max())
        a, b, c = (oracle.ucenter(v) for v in (a, b, c))
        up = oracle.uprod
        self.aa, self.bb, self.cc = up(a, a), up(b, b), up(c, c)
        self.ab, self.ac, self.bc = up(a, b), up(a, c), up(b, c)
        self.zero_z = self.m[2] == 0
        if self.zero_z:
            pa, pb = a, b
        else:
            pa = a - self.ac / self.cc * c
            pb = b - self.bc / self.cc * c
        self.cov = up(pa, pb)
        self.va, self.vb = up(pa, pa), up(pb, pb)

    @classmethod
    def lattice(cls, xv, yv, zv, i, j, k):
        """Large samples with few distinct points."""
        self = cls.__new__(cls)
        xy, xz, yz = (oracle.LatticeDC(*v) for v in (
            (xv, yv, i, j), (xv, zv, i, k), (yv, zv, j, k)))
        self.m = (xy.mx, xy.my, xz.my)
        self.aa, self.bb, self.cc = xy.uvx, xy.uvy, xz.uvy
        self.ab, self.ac, self.bc = xy.ucov, xz.ucov, yz.ucov
        self.zero_z = False
        self.cov = self.ab - self.ac * self.bc / self.cc
        self.va = self.aa - self.ac ** 2 / self.cc
        self.vb = self.bb - self.bc ** 2 / self.cc
        return self

    def degenerate(self):
        """Variances that vanish up to rounding: nothing is claimed."""
        bad = [v < 1e-6 * m * m for v, m in
               zip((self.aa, self.bb, self.cc), self.m)]
        if self.zero_z:
            bad[2] = False
        return bad

    def corr(self):
        def r(ab, a, b):
            return ab / np.sqrt(a * b) if a * b > 0 else LD(0)
        xy = r(self.ab, self.aa, self.bb)
        xz = LD(0) if self.zero_z else r(self.ac, self.aa, self.cc)
        yz = LD(0) if self.zero_z else r(self.bc, self.bb, self.cc)
        den = np.sqrt(max(1 - xz**2, 0)) * np.sqrt(max(1 - yz**2, 0))
        return (xy - xz * yz), den


def verify(ctx, rng, x, y, z, desc, p=None):
    n = len(x)
    p = p or Partial(x, y, z)
    d = {"n": n, "desc": desc, "x": x, "y": y, "z": z}
    bad = p.degenerate()
    if bad[2]:
        ctx.inconclusive()
    xs, ys, zs = (data.layout(v, str(rng.choice(data.LAYOUTS)))
                  for v in (x, y, z))
    s = int(rng.integers(6))
    if s == 0:
        xs, zs = data.shared(rng, x, z)
    elif s == 1:
        ys, zs = data.shared(rng, y, z)
    elif s == 2:
        xs, ys = data.shared(rng, x, y)
    # the projection divides by <C, C>: amplification of the rounding
    k = 1 if p.zero_z else p.m[2] ** 2 / p.cc
    tol = 1e-12 * (n + 20) * p.m[0] * p.m[1] * (1 + k) ** 2 + LD(1e-300)
    c = ctx.call("partial_distance_covariance",
                 dcor.partial_distance_covariance, xs, ys, zs)
    ctx.close(c, p.cov, tol, "partial_distance_covariance is not the product "
              "of the projections", **d)
    c2 = ctx.call("partial_distance_covariance",
                  dcor.partial_distance_covariance, ys, xs, zs)
    ctx.close(c2, p.cov, tol, "partial_distance_covariance is not symmetric",
              **d)
    if p.zero_z:
        u = dcor.u_distance_covariance_sqr(x, y)
        ctx.close(c, u, 2 * tol, "with nothing to remove it must be the "
                  "U-distance covariance", **d)
        ctx.ev("constant_z")
    if n >= 4:
        t = ctx.call("test", dcor.independence.
                     partial_distance_covariance_test, xs, ys, zs)
        ctx.close(t.statistic, n * p.cov, n * tol, "the test statistic is "
                  "not n times the partial distance covariance", **d)
    if p.m[0] == 0 or p.m[1] == 0:
        r = ctx.call("partial_distance_correlation",
                     dcor.partial_distance_correlation, xs, ys, zs)
        ctx.close(r, 0, 1e-12, "partial correlation with a constant is not "
                  "zero", **d)
        return p
    if bad[0] or bad[1]:
        ctx.ev("degenerate_correlations_skipped")
        return p
    num, den = p.corr()
    if den < 1e-4:
        ctx.ev("degenerate_correlations_skipped")
        return p
    want = num / den
    amp = (p.m[0] ** 2 / p.aa + p.m[1] ** 2 / p.bb + k)
    rt = 1e-12 * (n + 20) * amp / den ** 3 + 1e-12
    r = ctx.call("partial_distance_correlation",
                 dcor.partial_distance_correlation, xs, ys, zs)
    ctx.close(r, want, rt, "partial_distance_correlation differs from its "
              "definition", **d)
    ctx.check(-1 - rt <= ctx.num(r, "pdcor") <= 1 + rt,
              "partial correlation out of [-1, 1]", "range", **d)
    r2 = ctx.call("partial_distance_correlation",
                  dcor.partial_distance_correlation, ys, xs, zs)
    ctx.close(r2, want, rt, "partial_distance_correlation is not symmetric",
              **d)
    # normalised covariance of the projections
    ctx.close(r, p.cov / np.sqrt(p.va * p.vb), 10 * rt, "not the cosine of "
              "the projections", **d)
    ctx.nontrivial(x, y, z)
    return p


def sample(rng, n, p):
    if p == 0:
        return data.vec(rng, n, str(rng.choice(
            ("normal", "ties", "uniform", "heavy", "ramp", "dyadic"))))
    return data.mat(rng, n, p, str(rng.choice(
        ("normal", "corr", "int", "dups", "offset", "grid"))))


def k_any(ctx, rng, n, p, q, r, rel="mix"):
    x, y, z = sample(rng, n, p), sample(rng, n, q), sample(rng, n, r)
    col = z if z.ndim == 1 else z[:, 0]

    def add(v, w):
        return v + (w if v.ndim == 1 else w[:, None])
    if rel == "mix":
        x, y = add(x, 0.7 * col), add(y, -0.4 * col)
    ctx.feat("dims", (p, q, r))
    ctx.feat("n", n)
    verify(ctx, rng, x, y, z, rel)
    ctx.sample({"n": n, "dims": (p, q, r)})


def k_special(ctx, rng, n, p, what):
    x, y = sample(rng, n, p), sample(rng, n, p)
    z = sample(rng, n, 1)
    if what == "const_z":
        z = np.full((n, 1), 0.1)
    elif what == "const_x":
        x = np.full((n, 1), 0.1)
    elif what == "const_y":
        y = np.full((n, 2), -7.3)
    elif what == "self":
        y = x
    elif what == "x_is_z":
        z = x
    pp = verify(ctx, rng, x, y, z, what)
    if what == "self" and not any(pp.degenerate()) and pp.corr()[1] > 1e-4:
        r = ctx.call("partial_distance_correlation",
                     dcor.partial_distance_correlation, x, x, z)
        ctx.close(r, 1, 1e-6, "partial correlation of x with itself is not "
                  "one", n=n, x=x, z=z)
    if what == "x_is_z":
        c = ctx.call("partial_distance_covariance",
                     dcor.partial_distance_covariance, x, y, x)
        ctx.close(c, 0, 1e-11 * (n + 20) * pp.m[0] * pp.m[1]
                  * (1 + pp.m[2] ** 2 / pp.cc), "nothing can remain after "
                  "removing x from itself", n=n, x=x, y=y)


def k_lattice(ctx, rng, n, p, q, r):
    xv, yv, i, j = oracle.lattice(rng, n, p, q)
    zv = rng.normal(size=(20, r))
    k = np.where(rng.random(n) < 0.3, (i + j) % 20, rng.integers(0, 20, n))
    ctx.feat("n", n)
    verify(ctx, rng, xv[i], yv[j], zv[k], "lattice",
           Partial.lattice(xv, yv, zv, i, j, k))


KINDS = {"lattice": k_lattice, "any": k_any, "special": k_special}


def systematic(ctx):
    yield "lattice", {"n": 4200, "p": 2, "q": 1, "r": 2}
    yield "lattice", {"n": 3100, "p": 1, "q": 1, "r": 1}
    for n, p, q, r in ((1100, 1, 1, 1), (1500, 2, 1, 3), (60, 80, 130, 2)):
        yield "any", {"n": n, "p": p, "q": q, "r": r}
    for w in ("const_z", "const_x", "self", "x_is_z"):
        yield "special", {"n": 700, "p": 1, "what": w}
    for n in list(range(4, 30)) + [40, 64, 65, 100, 200]:
        for p, q, r in ((0, 0, 0), (1, 1, 1), (2, 1, 3), (1, 3, 0)):
            yield "any", {"n": n, "p": p, "q": q, "r": r}
            yield "any", {"n": n, "p": p, "q": q, "r": r, "rel": "indep"}
    for n in (5, 6, 9, 20, 50):
        for p in (0, 1, 2):
            for w in ("const_z", "const_x", "const_y", "self", "x_is_z"):
                yield "special", {"n": n, "p": p, "what": w}
    yield "any", {"n": 600, "p": 1, "q": 2, "r": 2}


def random_case(ctx, rng):
    n = data.size(rng, 5, 120)
    if rng.random() < 0.2:
        return "special", {"n": n, "p": int(rng.integers(0, 4)), "what": str(
            rng.choice(("const_z", "const_x", "const_y", "self", "x_is_z")))}
    p, q, r = (int(v) for v in rng.integers(0, 6, size=3))
    return "any", {"n": n, "p": p, "q": q, "r": r,
                   "rel": str(rng.choice(("mix", "indep")))}
