"""C12: reproducibility of the permutation tests."""
import random

import joblib
import numpy as np

import data
import dcor
import permtest as pt
from props.c10 import trimmed
from props.c11 import GEN, TESTS, build

data.UNITS = True


def run(ctx, test, **kw):
    r = ctx.call(test.name, test.run, **kw)
    return (float(ctx.num(r.pvalue, "pvalue")),
            float(ctx.num(r.statistic, "statistic")))


def same(ctx, a, b, what, **d):
    """Same p-value; same statistic."""
    ctx.check(a[0] == b[0], what + ": p-value", "repeats", first=a, second=b,
              **d)
    ctx.check(a[1] == b[1], what + ": statistic", "repeats", first=a,
              second=b, **d)


def rs_for(rng, seed):
    f = int(rng.integers(3))
    return (seed, np.random.RandomState(seed),
            np.int64(seed))[f]


def global_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4], random.getstate())


def k_repeat(ctx, rng, which, n, p, e, R, extra=None):
    test = build(rng, which, n, p, e, "normal", extra)
    seed = int(rng.integers(0, 2**31))
    before = global_state()
    a = run(ctx, test, num_resamples=R, random_state=seed)
    # unrelated activity between the two runs
    np.random.seed(int(rng.integers(2**31)))
    np.random.random(7)
    random.random()
    noise = build(rng, str(rng.choice(TESTS)), 7, 1, 1, "normal")
    run(ctx, noise, num_resamples=3, random_state=1)
    mid = global_state()
    for form in (seed, np.random.RandomState(seed), np.int64(seed)):
        b = run(ctx, test, num_resamples=R, random_state=form)
        same(ctx, a, b, "%s: the same seed gives another result" % test.name,
             seed=seed, form=type(form).__name__)
    ctx.check(global_state() == mid and True, "%s with a given random_state "
              "changes the global random state" % test.name, "global_rng")
    del before
    # a generator
    g = run(ctx, test, num_resamples=R,
            random_state=np.random.default_rng(seed))
    h = run(ctx, test, num_resamples=R,
            random_state=np.random.default_rng(seed))
    same(ctx, g, h, "%s: the same Generator seed gives another result"
         % test.name, seed=seed)
    ctx.nontrivial(which, seed, R, *[np.asarray(v) for v in test.args])
    ctx.sample({"test": which, "seed": seed, "result": a})


def k_jobs(ctx, rng, which, n, R, backend, jobs, rs, extra=None):
    """Same result for any number of jobs and any joblib backend."""
    test = build(rng, which, n, 2, 1, "normal", extra)
    seed = int(rng.integers(0, 2**31))

    def make():
        return {"int": seed, "RandomState": np.random.RandomState(seed),
                "Generator": np.random.default_rng(seed)}[rs]
    def after(g):
        return None if rs == "int" else g.permutation(64).tolist()
    g0 = make()
    base = run(ctx, test, num_resamples=R, random_state=g0)
    left = after(g0)
    for j in jobs:
        for _ in range(2):
            g = make()
            if backend:
                with joblib.parallel_backend(backend):
                    b = run(ctx, test, num_resamples=R, random_state=g,
                            n_jobs=j)
            else:
                b = run(ctx, test, num_resamples=R, random_state=g,
                        n_jobs=j)
            ctx.check(after(g) == left, "%s: what is left in the generator "
                      "depends on n_jobs or the backend" % test.name,
                      "stream", n_jobs=j, backend=backend, R=R, rng=rs)
            same(ctx, base, b, "%s: result depends on n_jobs or the backend"
                 % test.name, n_jobs=j, backend=backend, seed=seed, rng=rs,
                 R=R, n=n)
            ctx.ev("parallel_runs")
            ctx.feat("jobs", (backend, j))
    ctx.nontrivial(which, seed, R, backend, jobs)


def k_stream(ctx, rng, which, n, R, rs):
    """A generator passed by the user is consumed: R permutations per test,
    so consecutive tests continue its stream."""
    test = build(rng, which, n, 1, 1, "normal")
    if test.degenerate:
        ctx.inconclusive()
    seed = int(rng.integers(1, 2**31))

    def mk():
        return (np.random.RandomState(seed) if rs == "RandomState"
                else np.random.default_rng(seed))
    shared = mk()
    got = [run(ctx, test, num_resamples=R, random_state=shared)
           for _ in range(3)]
    model = mk()
    for i in range(3):
        perms = [model.permutation(test.size) for _ in range(R)]
        t0, sure, maybe = pt.bounds(test, perms, 1e-11 * test.scale)
        k = round(got[i][0] * (R + 1))
        ctx.check(sure + 1 <= k <= maybe + 1, "%s: run %d with a shared "
                  "generator does not continue its stream" % (test.name, i),
                  "stream", got=got, above=(sure, maybe), R=R)
    # one call with 3R equals the same stream: state left behind
    x = shared.permutation(1000)
    y = model.permutation(1000)
    ctx.check((x == y).all(), "%s leaves the generator in another state than "
              "R permutations per test" % test.name, "stream", rng=rs, R=R)
    ctx.nontrivial(which, seed, R, rs)


KINDS = {"repeat": k_repeat, "jobs": k_jobs, "stream": k_stream}


def systematic(ctx):
    for w in TESTS:
        yield "jobs", {"which": w, "n": 150, "R": 600,
                       "backend": "threading", "jobs": [1, 4],
                       "rs": "RandomState"}
        yield "jobs", {"which": w, "n": 9, "R": 3001,
                       "backend": "threading", "jobs": [1, 2],
                       "rs": "Generator"}
        yield "repeat", {"which": w, "n": 500, "p": 1, "e": 1, "R": 20}
    for w in TESTS:
        yield "jobs", {"which": w, "n": 10, "R": 37, "backend": None,
                       "jobs": [2], "rs": "RandomState"}
        for rs in ("int", "RandomState", "Generator"):
            for n, R in ((5, 1), (8, 20), (17, 101), (40, 250)):
                yield "jobs", {"which": w, "n": n, "R": R,
                               "backend": "threading",
                               "jobs": [None, 1, 2, 3, 8, -1], "rs": rs}
        for n in (5, 9, 16, 30):
            for R in (0, 1, 10, 60):
                yield "repeat", {"which": w, "n": n, "p": 2, "e": 1, "R": R}
            for rs in GEN:
                for R in (1, 7, 40):
                    yield "stream", {"which": w, "n": n, "R": R, "rs": rs}
        yield "repeat", {"which": w, "n": 12, "p": 1, "e": 1.5, "R": 30}
        yield "repeat", {"which": w, "n": 7, "p": 1, "e": 1, "R": 1200}
        if ctx.thorough:
            for be in (None, "multiprocessing"):
                for j in ([2, 3], [-1, 8]):
                    yield "jobs", {"which": w, "n": 23, "R": 150,
                                   "backend": be, "jobs": j, "rs": "int"}
    yield "jobs", {"which": "energy", "n": 0, "R": 25, "backend": None,
                   "jobs": [2], "rs": "int",
                   "extra": {"sizes": [4, 6, 3], "stat": "U",
                             "avg": "median"}}
    yield "jobs", {"which": "energy", "n": 0, "R": 60,
                   "backend": "threading", "jobs": [2, 4], "rs": "int",
                   "extra": {"sizes": [4, 6, 3], "stat": "U",
                             "avg": "trimmed"}}


def random_case(ctx, rng):
    w = str(rng.choice(TESTS))
    u = rng.random()
    extra = {"sizes": [int(v) for v in rng.integers(2, 9, size=3)],
             "stat": str(rng.choice(("U", "V")))} if rng.integers(2) else {}
    if u < 0.5:
        return "jobs", {"which": w, "n": data.size(rng, 5, 60),
                        "R": int(rng.choice((5, 33, 120, 400))),
                        "backend": "threading",
                        "jobs": [int(v) for v in rng.choice(
                            (2, 3, 4, 5, 8, 16), size=2)],
                        "rs": str(rng.choice(("int", "RandomState",
                                              "Generator"))),
                        "extra": extra if w == "energy" else {}}
    if u < 0.8:
        return "repeat", {"which": w, "n": data.size(rng, 5, 40), "p": 2,
                          "e": 1, "R": int(rng.choice((3, 20, 80))),
                          "extra": extra if w == "energy" else {}}
    return "stream", {"which": w, "n": data.size(rng, 5, 30),
                      "R": int(rng.choice((1, 5, 40))),
                      "rs": str(rng.choice(GEN))}
