"""C21: the fast methods need O(n log n) time and O(n) memory."""
import resource
import time
import tracemalloc

import numpy as np

import dcor
from dcor import CompileMode as CM, DistanceCovarianceMethod as DM, \
    RowwiseMode as RM

# Bytes per sample. The code uses 150 to 670; one n x n array of booleans at
# the sizes below would need at least 16000.
BYTES = 4096
# Growth of the CPU time when n grows 16 times. n log n: about 21 (up to 35
# with cache effects); n ** 2: 256.
RATIO = 100

FUNCTIONS = (
    "distance_covariance_sqr", "u_distance_covariance_sqr",
    "distance_covariance", "distance_stats", "u_distance_stats_sqr",
    "distance_correlation", "u_distance_correlation_sqr",
    "distance_correlation_af_inv", "t_test", "rowwise",
)
WAYS = (("AVL", "COMPILE_CPU"), ("AVL", "NO_COMPILE"),
        ("MERGESORT", "COMPILE_CPU"), ("MERGESORT", "NO_COMPILE"),
        ("AUTO", "AUTO"), ("AUTO", "NO_COMPILE"), (None, None))
STRUCTURES = ("normal", "sorted", "reversed", "constant", "ties", "organ",
              "saw", "equal", "opposite", "blocks")


def sample(rng, n, s):
    x = rng.normal(size=n)
    y = rng.normal(size=n)
    if s == "sorted":
        x, y = np.sort(x), np.sort(y)
    elif s == "reversed":
        x, y = np.sort(x)[::-1].copy(), np.sort(y)
    elif s == "constant":
        y = np.full(n, 3.25)
    elif s == "ties":
        x, y = np.round(x), np.round(y)
    elif s == "organ":
        x = np.abs(np.arange(n) - n / 2)
        y = np.arange(n, dtype=float)
    elif s == "saw":
        x = (np.arange(n) % 17).astype(float)
        y = (np.arange(n) % 256).astype(float)
    elif s == "equal":
        y = x
    elif s == "opposite":
        y = -x
    elif s == "blocks":
        x = np.repeat(rng.permutation((n + 63) // 64), 64)[:n].astype(float)
    return x, y


def call_for(f, way, col, dt):
    kw = {}
    if way[0]:
        kw = {"method": DM[way[0]], "compile_mode": CM[way[1]]}
    if f == "t_test":
        g = lambda x, y: dcor.independence.distance_correlation_t_test(x, y)
    elif f == "rowwise":
        g = lambda x, y: dcor.rowwise(
            dcor.distance_correlation, [x, y], [y, x])
    else:
        g = lambda x, y: getattr(dcor, f)(x, y, **kw)

    def run(x, y):
        if dt:
            x, y = (100 * x).astype(dt), (100 * y).astype(dt)
        if col and f != "rowwise":
            x, y = x[:, None], y[:, None]
        return g(x, y)
    return run


def limited():
    """At most some GB more than now: n x n arrays fail, not the machine."""
    with open("/proc/self/statm") as f:
        now = int(f.read().split()[0]) * resource.getpagesize()
    old = resource.getrlimit(resource.RLIMIT_AS)
    hard = old[1]
    soft = now + (3 << 30)
    if hard != resource.RLIM_INFINITY:
        soft = min(soft, hard)
    resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
    return old


def k_memory(ctx, rng, f, way, s, col=False, dt=None):
    slow = way[1] == "NO_COMPILE"
    n = 16000 if slow else 100000
    x, y = sample(rng, n, s)
    run = call_for(f, way, col, dt)
    run(x[:50], y[:50])
    old = limited()
    tracemalloc.start()
    try:
        ctx.call("%s with %d samples" % (f, n), run, x, y)
        peak = tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()
        resource.setrlimit(resource.RLIMIT_AS, old)
    ctx.mx("bytes per sample: %s" % (
        "interpreted" if slow else "compiled"), peak / n)
    allowed = BYTES * n * (3 if f == "rowwise" else 1)
    ctx.check(peak <= allowed, "%s: the memory grows faster than the "
              "sample" % f, "memory_peaks", bytes_per_sample=peak / n, n=n,
              way=way, structure=s)
    ctx.feat("structure", s)
    ctx.feat("way", way)
    ctx.feat("function", f)
    ctx.nontrivial(f, way, s, col, dt, "memory")
    ctx.sample({"function": f, "n": n, "way": way,
                "bytes_per_sample": peak / n})


def cpu(run, x, y):
    t = time.process_time()
    run(x, y)
    return time.process_time() - t


def k_time(ctx, rng, f, way, s, col=False, dt=None):
    slow = way[1] == "NO_COMPILE"
    n = 500 if slow else 8000
    x, y = sample(rng, 16 * n, s)
    # A prefix of a structured sample has the same structure.
    step = 16 if s in ("sorted", "reversed", "organ") else 1
    xs, ys = (x[::16], y[::16]) if step == 16 else (x[:n], y[:n])
    if s == "saw":
        xs, ys = sample(rng, n, s)
    xs, ys = xs.copy(), ys.copy()
    run = call_for(f, way, col, dt)
    ctx.call(f, run, xs, ys)
    small = big = ratio = np.inf
    old = limited()
    try:
        for attempt in range(4):
            small = min(small, *(ctx.call(f, cpu, run, xs, ys)
                                 for _ in range(3)))
            big = min(big, ctx.call(f, cpu, run, x, y))
            # A slow small run makes the ratio look better, never worse.
            ratio = big / max(small, 1e-4)
            if ratio < RATIO:
                break
    finally:
        resource.setrlimit(resource.RLIMIT_AS, old)
    ctx.mx("time ratio: %s" % (
        "interpreted" if slow else "compiled"), ratio)
    ctx.check(ratio < RATIO, "%s: the time grows much faster than n log n"
              % f, "time_ratios", ratio=ratio, small_s=small, big_s=big, n=n,
              way=way, structure=s)
    ctx.feat("structure", s)
    ctx.feat("way", way)
    ctx.feat("function", f)
    ctx.nontrivial(f, way, s, col, dt, "time")
    ctx.sample({"function": f, "n": (n, 16 * n), "way": way,
                "time_ratio": ratio})


KINDS = {"memory": k_memory, "time": k_time}


def combos():
    for f in FUNCTIONS:
        ways = WAYS[-1:] if f in ("t_test", "rowwise") else WAYS
        for w in ways:
            yield f, list(w)


def systematic(ctx):
    cs = list(combos())
    for i, (f, w) in enumerate(cs):
        s = STRUCTURES[(3 * i) % len(STRUCTURES)]
        if w[1] != "NO_COMPILE" or i % 3 == 0:
            yield "memory", {"f": f, "way": w, "s": s, "col": i % 4 == 1,
                             "dt": (None, None, "int32", "float32")[i % 4]}
    for w in WAYS:
        for s in STRUCTURES:
            if w[1] == "NO_COMPILE" and not ctx.thorough and s not in (
                    "sorted", "ties", "normal"):
                continue
            yield "time", {"f": "distance_covariance_sqr", "way": list(w),
                           "s": s}
    for i, (f, w) in enumerate(cs):
        if w[0] is None:
            yield "time", {"f": f, "way": w, "s": "normal",
                           "col": i % 2 == 0}
            yield "memory", {"f": f, "way": w, "s": "ties",
                             "col": i % 2 == 1, "dt": "int64"}


def random_case(ctx, rng):
    cs = list(combos())
    f, w = cs[int(rng.integers(len(cs)))]
    return ("time" if rng.integers(2) else "memory"), {
        "f": f, "way": w, "s": str(rng.choice(STRUCTURES)),
        "col": bool(rng.integers(2)),
        "dt": (None, None, "int32", "float32")[int(rng.integers(4))]}
