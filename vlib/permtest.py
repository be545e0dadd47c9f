"""Monitors and reference model of the permutation tests."""
import numpy as np

import dcor
import oracle

LD = np.longdouble


class _Recording:
    """Records the permutations handed out, whichever method draws them."""
    log = None
    script = None
    inside = False

    def _draw(self, name, x, a, k):
        if self.inside:
            return getattr(super(), name)(x, *a, **k)
        if len(self.log) > 50000:
            raise RuntimeError("permutations are drawn without end")
        self.inside = True
        try:
            if self.script is None:
                r = getattr(super(), name)(x, *a, **k)
            else:
                r = np.array(self.script[len(self.log) % len(self.script)])
                if name == "shuffle":
                    x[:] = r
            out = x if name == "shuffle" else r
            if np.ndim(out) == 1:
                self.log.append(np.array(out))
            return None if name == "shuffle" else r
        finally:
            self.inside = False

    def permutation(self, x, *a, **k):
        return self._draw("permutation", x, a, k)

    def shuffle(self, x, *a, **k):
        return self._draw("shuffle", x, a, k)

    def permuted(self, x, *a, **k):
        return self._draw("permuted", x, a, k)


class RecRandomState(_Recording, np.random.RandomState):
    pass


class RecGenerator(_Recording, np.random.Generator):
    pass


def recorder(kind, seed, script=None):
    if kind == "RandomState":
        r = RecRandomState(seed)
    else:
        r = RecGenerator(np.random.PCG64(seed))
    r.log, r.script = [], script
    return r


class Dcov:
    degenerate = False
    name = "distance_covariance_test"

    def __init__(self, x, y, exponent=1):
        self.a = oracle.dcenter(oracle.dist(x, exponent=exponent))
        self.b = oracle.dcenter(oracle.dist(y, exponent=exponent))
        self.n = self.size = len(x)
        self.kw = {} if exponent == 1 else {"exponent": exponent}
        self.args = (x, y)
        self.scale = self.n * np.abs(self.a).max() * np.abs(self.b).max()

    def stat(self, perm=None):
        a = self.a if perm is None else self.a[np.ix_(perm, perm)]
        return self.n * (a * self.b).sum() / LD(self.n) ** 2

    def run(self, **kw):
        return dcor.independence.distance_covariance_test(
            *self.args, **self.kw, **kw)


class Pdcov:
    name = "partial_distance_covariance_test"

    def __init__(self, x, y, z, exponent=1):
        a, b, c = (oracle.dist(v, exponent=exponent) for v in (x, y, z))
        m = [v.max() for v in (a, b, c)]
        a, b, c = (oracle.ucenter(v) for v in (a, b, c))
        up = oracle.uprod
        amp = LD(0)
        self.degenerate = False
        if m[2] > 0:
            k = up(c, c)
            # the projection divides by <C, C>
            self.degenerate = bool(k < 1e-6 * m[2] ** 2)
            if not self.degenerate:
                amp = m[2] ** 2 / k
                a, b = a - up(a, c) / k * c, b - up(b, c) / k * c
        self.a, self.b = a, b
        self.n = self.size = len(x)
        self.kw = {} if exponent == 1 else {"exponent": exponent}
        self.args = (x, y, z)
        self.scale = 10 * self.n * (m[0] * m[1] * (1 + amp) ** 2
                                    + LD(1e-300))

    def stat(self, perm=None):
        a = self.a if perm is None else self.a[np.ix_(perm, perm)]
        return self.n * oracle.uprod(a, self.b)

    def run(self, **kw):
        return dcor.independence.partial_distance_covariance_test(
            *self.args, **self.kw, **kw)


class Energy:
    degenerate = False
    name = "energy_test"

    def __init__(self, samples, exponent=1, stat="V", average=None,
                 ref_average=None, stat_form=None):
        self.args = tuple(samples)
        self.sizes = [len(s) for s in samples]
        pooled = np.concatenate([oracle.ld2(s) for s in samples])
        self.d = oracle.dist(pooled, exponent=exponent)
        self.size = len(pooled)
        self.kind = stat
        self.ref_average = ref_average
        self.kw = {} if exponent == 1 else {"exponent": exponent}
        if stat != "V" or stat_form is not None:
            self.kw["estimation_stat"] = stat_form or stat
        if average is not None:
            self.kw["average"] = average
        self.scale = 4 * len(self.sizes) ** 2 * self.size * self.d.max()

    def stat(self, perm=None):
        d = self.d if perm is None else self.d[np.ix_(perm, perm)]
        e = np.cumsum([0] + self.sizes)
        sl = [slice(e[i], e[i + 1]) for i in range(len(self.sizes))]
        t = LD(0)
        for i in range(len(sl)):
            for j in range(i + 1, len(sl)):
                n, m = LD(self.sizes[i]), LD(self.sizes[j])
                t += n * m / (n + m) * oracle.energy_from(
                    d[sl[i], sl[i]], d[sl[j], sl[j]], d[sl[i], sl[j]],
                    self.kind, self.ref_average)
        return t

    def run(self, **kw):
        return dcor.homogeneity.energy_test(*self.args, **self.kw, **kw)


def bounds(test, perms, tol):
    """How many permuted statistics are above: (surely, possibly)."""
    t0 = test.stat()
    ts = [test.stat(p) for p in perms]
    sure = sum(1 for t in ts if t > t0 + tol)
    maybe = sum(1 for t in ts if t > t0 - tol)
    return t0, sure, maybe
