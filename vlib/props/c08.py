"""C08: centring and the Hilbert space of U-centred matrices."""
from fractions import Fraction

import numpy as np

import data
import dcor
import oracle

LD = np.longdouble

data.UNITS = True


def symmetric(rng, n, kind):
    if kind == "dist":
        a = np.asarray(oracle.dist(data.mat(rng, n, 2, "normal")), float)
    elif kind == "dist1":
        a = np.abs(np.subtract.outer(*(2 * [data.vec(rng, n, "ties")])))
    elif kind == "int":
        a = rng.integers(-9, 10, size=(n, n))
        a = a + a.T
    elif kind == "zero":
        a = np.zeros((n, n))
    elif kind == "const":
        a = np.full((n, n), 0.1)
    elif kind == "diag":
        a = np.diag(rng.normal(size=n))
    elif kind == "scaled":
        a = rng.normal(size=(n, n)) * 10.0 ** rng.integers(-6, 7)
        a = a + a.T
    else:
        a = rng.normal(size=(n, n))
        a = a + a.T
    return a


KSYM = ("general", "dist", "dist1", "int", "zero", "const", "diag", "scaled")


def k_center(ctx, rng, n, kind, lay):
    a = symmetric(rng, n, kind)
    scale = float(np.abs(a).max()) or 1.0
    tol = 1e-13 * scale * (n + 5)
    for name, f, ref, least in (
            ("double_centered", dcor.double_centered, oracle.dcenter, 1),
            ("u_centered", dcor.u_centered, oracle.ucenter, 3)):
        if n < least:
            continue
        want = ref(a)
        arr = data.layout(a, lay)
        before = arr.tobytes()
        d = {"matrix": a, "layout": lay, "kind": kind}
        got = ctx.call(name, f, arr)
        ctx.allclose(got, want, tol, "%s is wrong" % name, **d)
        ctx.check(got is not arr and not np.shares_memory(got, arr)
                  and arr.tobytes() == before,
                  "%s without out modifies or returns its argument" % name,
                  "aliasing", **d)
        g = np.asarray(got, float)
        ctx.check(np.abs(g.sum(axis=0)).max() <= tol * n
                  and np.abs(g.sum(axis=1)).max() <= tol * n
                  or (name == "u_centered"
                      and np.abs(np.diag(a)).max() > 0),
                  "rows or columns of %s do not add up to zero" % name,
                  "sums", **d)
        if name == "u_centered":
            ctx.check((np.diag(g) == 0).all(), "u_centered has a non-zero "
                      "diagonal", "sums", **d)
        # out: another array; the source must be left alone
        out = data.layout(np.full((n, n), np.nan),
                          str(rng.choice(["C", "F", "strided", "neg"])))
        res = ctx.call(name, f, arr, out=out)
        ctx.check(res is out, "%s does not return out" % name, "aliasing",
                  **d)
        ctx.allclose(out, want, tol, "%s with out is wrong" % name, **d)
        ctx.check(arr.tobytes() == before, "%s with out modifies its "
                  "argument" % name, "aliasing", **d)
        # in place
        work = data.layout(np.asarray(a, float),
                           lay if lay not in ("ro", "be") else "C")
        res = ctx.call(name, f, work, out=work)
        ctx.check(res is work, "%s in place does not return out" % name,
                  "aliasing", **d)
        ctx.allclose(work, want, tol, "%s in place is wrong" % name, **d)
        # idempotent for matrices already centred
        again = ctx.call(name, f, got)
        if name == "double_centered":
            ctx.allclose(again, want, 4 * tol, "double_centered is not "
                         "idempotent", **d)
        elif not np.abs(np.diag(a)).max():
            ctx.allclose(again, want, 4 * tol, "u_centered is not "
                         "idempotent", **d)
    ctx.feat("layout", lay)
    ctx.feat("n", n)
    if np.abs(a).max():
        ctx.nontrivial(a, lay)
    ctx.sample({"n": n, "kind": kind, "layout": lay})


def k_exact(ctx, rng, n):
    """Exact arithmetic on fractions."""
    a = [[Fraction(int(v), 3) for v in r] for r in
         symmetric(rng, n, "int")]
    arr = np.array(a, dtype=object)
    tot = sum(sum(r) for r in a)
    rows = [sum(r) for r in a]
    got = ctx.call("double_centered", dcor.double_centered, arr)
    ok = all(got[i, j] == a[i][j] - rows[i] / n - rows[j] / n + tot / n**2
             for i in range(n) for j in range(n))
    ctx.check(ok, "double_centered is not exact for fractions", "exact",
              n=n, m=arr)
    if n > 2:
        got = ctx.call("u_centered", dcor.u_centered, arr)
        ok = all(got[i, j] == (0 if i == j else
                               a[i][j] - rows[i] / (n - 2) - rows[j] / (n - 2)
                               + tot / ((n - 1) * (n - 2)))
                 for i in range(n) for j in range(n))
        ctx.check(ok, "u_centered is not exact for fractions", "exact", n=n,
                  m=arr)
    ctx.nontrivial(n, repr(a))


def k_products(ctx, rng, n, m, kind):
    a = rng.normal(size=(n, m)) if kind == "rect" else symmetric(rng, n, kind)
    b = rng.normal(size=a.shape)
    sc = float(np.abs(a).max() * np.abs(b).max()) or 1.0
    got = ctx.call("mean_product", dcor.mean_product, a, b)
    ctx.close(got, oracle.mprod(a.astype(LD), b.astype(LD)), 1e-13 * sc,
              "mean_product is wrong", a=a, b=b)
    ctx.close(dcor.mean_product(b, a), got, 1e-13 * sc,
              "mean_product is not symmetric", a=a, b=b)
    if a.shape[0] == a.shape[1] and n > 3:
        got = ctx.call("u_product", dcor.u_product, a, b)
        ctx.close(got, oracle.uprod(a.astype(LD), b.astype(LD)),
                  1e-12 * sc * n, "u_product is wrong", a=a, b=b)
        ctx.close(dcor.u_product(b, a), got, 1e-12 * sc * n,
                  "u_product is not symmetric", a=a, b=b)
        ctx.check(dcor.u_product(a, a) >= 0, "u_product(a, a) is negative",
                  a=a)
    if np.abs(a).max():
        ctx.nontrivial(a, b)


def k_projection(ctx, rng, n, kind, lay):
    a = dcor.u_centered(symmetric(rng, n, kind) * 1.0)
    bs = [dcor.u_centered(symmetric(rng, n, k) * 1.0)
          for k in ("general", "dist", "dist1")]
    al = data.layout(a, lay)
    keep = al.tobytes()
    proj = ctx.call("u_projection", dcor.u_projection, al)
    comp = ctx.call("u_complementary_projection",
                    dcor.u_complementary_projection, al)
    # other projections created in between must not interfere
    other = [dcor.u_projection(b) for b in bs]
    aa = (a.astype(LD) ** 2).sum()
    scale_a = float(np.abs(a).max())
    exact_zero = scale_a == 0
    if not exact_zero and scale_a < 1e-9:
        ctx.inconclusive()      # zero up to rounding: not decidable
    for b, o in zip(bs, other):
        sb = float(np.abs(b).max()) or 1.0
        tol = 1e-12 * n * sb
        bl = data.layout(b, str(rng.choice(data.LAYOUTS)))
        before = bl.tobytes()
        want = (np.zeros_like(b, dtype=LD) if exact_zero else
                (a.astype(LD) * b).sum() / aa * a.astype(LD))
        got = ctx.call("projection", proj, bl)
        ctx.allclose(got, want, tol, "u_projection is not the orthogonal "
                     "projection", a=a, b=b)
        gc = ctx.call("complementary", comp, bl)
        ctx.allclose(gc, b.astype(LD) - want, tol, "u_complementary_"
                     "projection is not the complement", a=a, b=b)
        ctx.check(bl.tobytes() == before and al.tobytes() == keep,
                  "a projection modifies its arguments", "aliasing")
        ctx.allclose(proj(np.array(got)), want, 3 * tol,
                     "u_projection is not idempotent", a=a, b=b)
        ctx.check(abs(float((np.asarray(gc, float) * a).sum()))
                  <= 1e-10 * n * n * sb * (scale_a or 1),
                  "complement is not orthogonal", a=a, b=b)
        lin = proj(2.0 * b - 3.0 * bs[0])
        w0 = (np.zeros_like(b, dtype=LD) if exact_zero else
              (a.astype(LD) * bs[0]).sum() / aa * a.astype(LD))
        ctx.allclose(lin, 2 * want - 3 * w0, 20 * tol
                     + 1e-12 * n * float(np.abs(bs[0]).max()),
                     "u_projection is not linear", a=a, b=b)
        if np.abs(b).max() > 1e-9:
            bb = (b.astype(LD) ** 2).sum()
            ctx.allclose(o(a), (a.astype(LD) * b).sum() / bb * b,
                         1e-12 * n * (scale_a or 1),
                         "projections interfere with each other", a=a, b=b)
    if not exact_zero:
        ctx.nontrivial(a, lay)
    else:
        ctx.ev("null_projection")


KINDS = {"center": k_center, "exact": k_exact, "products": k_products,
         "projection": k_projection}


def systematic(ctx):
    for n in (1100, 2100, 4200):
        yield "center", {"n": n, "kind": "dist", "lay": "C"}
    yield "projection", {"n": 1100, "kind": "dist", "lay": "C"}
    yield "projection", {"n": 600, "kind": "dist", "lay": "F"}
    yield "products", {"n": 1100, "m": 1100, "kind": "dist"}
    yield "products", {"n": 2100, "m": 1100, "kind": "rect"}
    for n in list(range(1, 20)) + [32, 33, 64, 100]:
        for k in KSYM:
            yield "center", {"n": n, "kind": k,
                             "lay": data.LAYOUTS[n % len(data.LAYOUTS)]}
    for lay in data.LAYOUTS:
        for k in KSYM:
            yield "center", {"n": 6, "kind": k, "lay": lay}
            yield "projection", {"n": 6, "kind": k, "lay": lay}
    for n in range(1, 8):
        yield "exact", {"n": n}
    for n in (4, 5, 8, 15, 40):
        for k in KSYM:
            yield "projection", {"n": n, "kind": k, "lay": "C"}
            yield "products", {"n": n, "m": n, "kind": k}
        yield "products", {"n": n, "m": 2 * n + 1, "kind": "rect"}
        yield "products", {"n": n, "m": 1, "kind": "rect"}
    yield "center", {"n": 700, "kind": "dist", "lay": "C"}
    yield "center", {"n": 513, "kind": "general", "lay": "F"}


def random_case(ctx, rng):
    n = data.size(rng, 4, 90)
    k, lay = str(rng.choice(KSYM)), str(rng.choice(data.LAYOUTS))
    u = rng.random()
    if u < 0.5:
        return "center", {"n": n, "kind": k, "lay": lay}
    if u < 0.8:
        return "projection", {"n": n, "kind": k, "lay": lay}
    if u < 0.9:
        return "products", {"n": n, "m": int(rng.integers(1, 60)),
                            "kind": str(rng.choice(KSYM + ("rect",)))}
    return "exact", {"n": int(rng.integers(1, 9))}
