"""C17: calls from several threads do not disturb each other."""
import sys
import threading
import time

import joblib
import numba
import numpy as np

import api
import data
import dcor
from envstate import env_state, same_env

SWITCH = 1e-6


class Tracer:
    """Yields the processor inside dcor and logs the interleaving."""

    def __init__(self, seed, p):
        self.rng = np.random.default_rng(seed)
        self.p = p
        self.log = []          # (thread, code position), in global order
        self.yields = 0

    def install(self, tid):
        r = np.random.default_rng([tid, int(self.rng.integers(2**31))])
        draws = r.random(4096)
        pos = [0]
        log, p, me = self.log, self.p, self

        def local(frame, event, arg):
            if event == "line":
                i = pos[0] = (pos[0] + 1) % 4096
                log.append((tid, frame.f_code.co_name, frame.f_lineno))
                d = draws[i]
                if d < p:
                    me.yields += 1
                    time.sleep(0 if d < p * 0.8 else 2e-5)
            return local

        def glob(frame, event, arg):
            if "/dcor/" in frame.f_code.co_filename \
                    and "/site-packages/" not in frame.f_code.co_filename:
                return local
            return None
        sys.settrace(glob)


def interleavings(log):
    """(switches inside dcor, distinct pairs of positions switched)."""
    pairs, n = set(), 0
    for a, b in zip(log, log[1:]):
        if a[0] != b[0]:
            n += 1
            pairs.add((a[1:], b[1:]))
    return n, pairs


def parallel_ok():
    try:
        return numba.threading_layer() in ("tbb", "omp")
    except ValueError:
        return False


def run_threads(ctx, bodies, limit):
    errs, threads = [], []
    gate = threading.Barrier(len(bodies))

    def wrap(f, i):
        try:
            gate.wait()
            f(i)
        except Exception as e:
            errs.append((e, e.__traceback__))
        finally:
            sys.settrace(None)
    old = sys.getswitchinterval()
    env = env_state()
    sys.setswitchinterval(SWITCH)
    try:
        for i, f in enumerate(bodies):
            t = threading.Thread(target=wrap, args=(f, i), daemon=True)
            threads.append(t)
            t.start()
        end = time.time() + limit
        for t in threads:
            t.join(max(0.1, end - time.time()))
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in threads):
        frames = {k: "".join(__import__("traceback").format_stack(f)[-4:])
                  for k, f in sys._current_frames().items()}
        ctx.viol("threads calling dcor did not finish", limit=limit,
                 frames=str(frames)[-2500:])
    if errs:
        import traceback
        e, tb = errs[0]
        ctx.viol("a call raised %s only when run in threads"
                 % type(e).__name__, error=str(e)[:300],
                 where="".join(traceback.format_tb(tb)[-4:])[-900:])
    # whatever a call saves and restores must not stay changed when the
    # calls of several threads overlap
    same_env(ctx, env, "calls from several threads")
    ctx.ev("states_compared")


def k_mixed(ctx, rng, n, threads, reps, trace, which):
    """Threads executing random calls over shared, read-only inputs."""
    sel = {"all": None,
           "fast": lambda s: "AVL" in s or "MERGESORT" in s,
           "rows": lambda s: s.startswith("rowwise"),
           "vec": lambda s: "AVL" not in s and "MERGESORT" not in s}[which]
    pool = []
    for m in (n, n + 3, max(4, n // 2)):
        pool += api.calls(rng, m, sel)
    if len(pool) > 90:
        pool = [pool[int(i)] for i in rng.choice(len(pool), 90,
                                                  replace=False)]
    # make the threading layer known, then the sequential answers
    dcor.rowwise(dcor.distance_covariance_sqr, rng.normal(size=(2, 8)),
                 rng.normal(size=(2, 8)))
    lock = None if parallel_ok() else threading.Lock()
    t0 = time.time()
    want = [ctx.call(name, fn, *args) for name, fn, args in pool]
    base = time.time() - t0
    bad, count = [], [0] * threads
    tr = Tracer(int(rng.integers(2**31)), trace)
    orders = [rng.integers(0, len(pool), size=reps) for _ in range(threads)]

    def body(i):
        if trace:
            tr.install(i)
        for j in orders[i]:
            name, fn, args = pool[j]
            if lock is not None and name.startswith("rowwise"):
                with lock:
                    got = fn(*args)
            else:
                got = fn(*args)
            count[i] += 1
            if not api.same(got, want[j]) and not api.close(got, want[j],
                                                            1e-10):
                bad.append((name, got, want[j]))
                return
    run_threads(ctx, [body] * threads,
                max(150, 400 * base * threads * reps / max(1, len(pool))))
    ctx.ev("threaded_calls", sum(count))
    if trace:
        sw, pairs = interleavings(tr.log)
        ctx.ev("switches_inside_dcor", sw)
        ctx.ev("injected_yields", tr.yields)
        for p in list(pairs)[:3000]:
            ctx.nontrivial("interleaving", p)
    else:
        ctx.nontrivial("mixed", n, threads, int(rng.integers(2**62)))
    ctx.feat("threads", threads)
    ctx.feat("layer", str(parallel_ok()))
    if bad:
        name, got, w = bad[0]
        ctx.viol("%s gives another value when other threads are calling"
                 % name, got=[v.ravel()[:4].tolist() for v in api.flat(got)],
                 alone=[v.ravel()[:4].tolist() for v in api.flat(w)], n=n,
                 threads=threads)
    ctx.sample({"threads": threads, "calls": sum(count), "n": n,
                "pool": len(pool)})


def k_same(ctx, rng, n, threads, reps, way):
    """One function from all threads, each with its own data."""
    cs = [api.calls(np.random.default_rng([7, i, n]), n + i % 5,
                    lambda s: s == way) for i in range(threads)]
    if not cs[0]:
        raise KeyError(way)
    want = [ctx.call(way, c[0][1], *c[0][2]) for c in cs]
    lock = None if parallel_ok() or not way.startswith("rowwise") \
        else threading.Lock()
    bad = []

    def body(i):
        name, fn, args = cs[i][0]
        for _ in range(reps):
            if lock:
                with lock:
                    got = fn(*args)
            else:
                got = fn(*args)
            if not api.same(got, want[i]) and not api.close(got, want[i],
                                                            1e-10):
                bad.append((got, want[i]))
                return
    run_threads(ctx, [body] * threads, 240)
    ctx.ev("threaded_calls", threads * reps)
    ctx.feat("function", way)
    ctx.nontrivial("same", way, n, threads, int(rng.integers(2**62)))
    if bad:
        ctx.viol("%s gives another value when other threads are calling"
                 % way, got=[v.ravel()[:4].tolist()
                             for v in api.flat(bad[0][0])],
                 alone=[v.ravel()[:4].tolist() for v in api.flat(bad[0][1])])


def k_tests(ctx, rng, n, threads, R, jobs):
    """Permutation tests with joblib threads, from several threads."""
    sets = []
    for i in range(threads):
        x = rng.normal(size=(n + i, 2))
        y = rng.normal(size=(n + i, 2)) + 0.3 * x
        seed = int(rng.integers(2**31))
        sets.append((x, y, seed))
    fns = (dcor.independence.distance_covariance_test,
           dcor.homogeneity.energy_test)

    def one(i, **kw):
        x, y, seed = sets[i]
        f = fns[i % 2]
        return f(x, y, num_resamples=R, random_state=seed, **kw)
    want = [ctx.call("test", one, i) for i in range(threads)]
    bad = []

    def body(i):
        for _ in range(3):
            with joblib.parallel_backend("threading"):
                got = one(i, n_jobs=jobs)
            if not api.close(got, want[i], 1e-12):
                bad.append((got, want[i]))
                return
    run_threads(ctx, [body] * threads, 240)
    ctx.ev("threaded_calls", threads * 3)
    ctx.nontrivial("tests", n, R, int(rng.integers(2**62)))
    if bad:
        ctx.viol("a permutation test gives another result when other "
                 "threads are calling", got=repr(bad[0][0]),
                 alone=repr(bad[0][1]))


class Waiting:
    """Two callbacks of different threads that need each other to go on."""

    def __init__(self, parties, rounds):
        self.gate = threading.Barrier(parties, timeout=30)
        self.left = {}
        self.rounds = rounds
        self.met = 0

    def __call__(self):
        me = threading.get_ident()
        if self.left.setdefault(me, self.rounds) > 0:
            self.left[me] -= 1
            self.gate.wait()
            self.met += 1


def k_callbacks(ctx, rng, n, threads, what):
    """Functions given by the caller that call dcor themselves, and that
    wait for the call of another thread: neither may be stopped."""
    xs = [rng.normal(size=(3, n)) for _ in range(threads)]
    ys = [rng.normal(size=(3, n)) + 0.5 * x for x in xs]
    seeds = [int(v) for v in rng.integers(0, 2**31, size=threads)]
    # (the parallel rows of other layers are not safe, see k_mixed)
    dcor.rowwise(dcor.distance_covariance_sqr, xs[0], ys[0])
    safe = parallel_ok()
    wait = None

    def met():
        if wait is not None:
            wait()

    def nested(u, v):
        met()
        a = dcor.rowwise(lambda s, t: float(
            dcor.distance_correlation(s, t, method="naive")),
            np.stack([u, v]), np.stack([v, u]))
        b = (float(np.asarray(dcor.rowwise(
            dcor.distance_covariance_sqr, u[None], v[None]))[0])
            if safe else 0.0)
        return float(a[0]) + b

    def average(d):
        met()
        k = min(len(np.ravel(d)), 9)
        w = np.ravel(np.asarray(d, float))[:k]
        return np.mean(d) + float(dcor.distance_correlation(
            np.arange(k * 1.0), w))

    def mean(d):
        met()
        return np.mean(d)

    def body(i):
        x, y = xs[i], ys[i]
        if what == "rowwise":
            return dcor.rowwise(nested, x, y)
        if what == "naive":
            return dcor.rowwise(nested, x, y,
                                rowwise_mode=dcor.RowwiseMode.NAIVE)
        if what == "energy":
            return dcor.energy_distance(x.T, y.T, average=average)
        if what == "tests":
            return dcor.homogeneity.energy_test(
                x.T, y.T, average=mean, num_resamples=3,
                random_state=seeds[i])
        gen = Drawing(seeds[i])
        gen.met = met
        f = dcor.independence
        if what == "generators":
            return f.distance_covariance_test(
                x.T, y.T, num_resamples=3, random_state=gen)
        return f.partial_distance_covariance_test(
            x.T, y.T, y.T[:, ::-1] + x.T, num_resamples=3, random_state=gen)
    want = [ctx.call(what, body, i) for i in range(threads)]
    wait = Waiting(threads, 3)
    got = [None] * threads

    def run(i):
        got[i] = body(i)
    run_threads(ctx, [run] * threads, 90)
    ctx.ev("callbacks_met", wait.met)
    ctx.ev("threaded_calls", threads)
    ctx.feat("callback", what)
    for i in range(threads):
        ctx.check(api.close(got[i], want[i], 1e-10), "%s with a callback "
                  "gives another value when other threads are calling"
                  % what, "callback_results", got=repr(got[i])[:200],
                  alone=repr(want[i])[:200])
    ctx.nontrivial("callbacks", what, threads, n, int(rng.integers(2**62)))


class Drawing(np.random.RandomState):
    def permutation(self, x):
        self.met()
        return super().permutation(x)


CALLBACKS = ("rowwise", "naive", "energy", "tests", "generators", "partial")

KINDS = {"callbacks": k_callbacks, "mixed": k_mixed, "same": k_same, "tests": k_tests}


def ways():
    return [c[0] for c in api.calls(np.random.default_rng(0), 12)]


def systematic(ctx):
    for w in CALLBACKS:
        for t in (2, 3):
            yield "callbacks", {"n": 8, "threads": t, "what": w}
    for w in ways():
        yield "same", {"n": 9, "threads": 4, "reps": 15, "way": w}
    for sel in ("all", "fast", "rows", "vec"):
        for t in (2, 4):
            yield "mixed", {"n": 14, "threads": t, "reps": 60, "trace": 0.15,
                            "which": sel}
        yield "mixed", {"n": 40, "threads": 6, "reps": 150, "trace": 0,
                        "which": sel}
    for j in (2, 4):
        yield "tests", {"n": 10, "threads": 3, "R": 30, "jobs": j}


def random_case(ctx, rng):
    u = rng.random()
    if rng.random() < 0.1:
        return "callbacks", {"n": data.size(rng, 6, 40),
                             "threads": int(rng.integers(2, 6)),
                             "what": str(rng.choice(CALLBACKS))}
    if u < 0.5:
        return "mixed", {"n": data.size(rng, 6, 60),
                         "threads": int(rng.integers(2, 7)), "reps": 60,
                         "trace": float(rng.choice((0.05, 0.2, 0.5))),
                         "which": str(rng.choice(("all", "fast", "rows",
                                                  "vec")))}
    if u < 0.75:
        return "mixed", {"n": data.size(rng, 6, 200),
                         "threads": int(rng.integers(2, 9)), "reps": 150,
                         "trace": 0, "which": str(rng.choice((
                             "all", "fast", "rows")))}
    if u < 0.9:
        return "same", {"n": data.size(rng, 8, 40), "threads": 4,
                        "reps": 60, "way": str(rng.choice(ways()))}
    return "tests", {"n": data.size(rng, 6, 20), "threads": 3, "R": 20,
                     "jobs": int(rng.integers(2, 5))}
