"""One monitored process: executes cases of one property and records events."""
import argparse
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

import numpy as np  # noqa: E402

warnings.simplefilter("ignore")


class CaseEnd(Exception):
    """The case ends here (violation recorded, or inconclusive)."""


class Ctx:
    def __init__(self, prop, tier, seed, lane):
        self.prop, self.tier, self.seed, self.lane = prop, tier, seed, lane
        self.events, self.kinds, self.maxima, self.features = {}, {}, {}, {}
        self.violations, self.samples = [], []
        self.digests = set()
        self.cases = self.n_inconclusive = 0
        self.case = None
        self.thorough = tier == "thorough"

    # ---- what the monitors saw
    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def feat(self, axis, value):
        s = self.features.setdefault(axis, set())
        if len(s) < 200:
            s.add(value if isinstance(value, (int, float)) else str(value))

    def mx(self, name, value):
        value = float(value)
        if value == value and value > self.maxima.get(name, 0):
            self.maxima[name] = value

    def nontrivial(self, *key):
        h = hashlib.blake2b(digest_size=8)
        for k in key:
            if isinstance(k, np.ndarray):
                h.update(str((k.shape, k.dtype, k.strides)).encode())
                h.update(k.tobytes() if k.dtype != object
                         else repr(k.tolist()).encode())
            else:
                h.update(repr(k).encode())
        if len(self.digests) < 200000:
            self.digests.add(h.hexdigest())

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append({"case": self.case, "observed": obj})

    # ---- verdicts
    def viol(self, what, /, key=None, **details):
        if len(self.violations) < 40:
            self.violations.append({
                "case": self.case, "what": what, "key": key,
                "details": {k: show(v) for k, v in details.items()}})
        raise CaseEnd

    def inconclusive(self):
        self.n_inconclusive += 1
        raise CaseEnd

    def check(self, cond, what, event=None, /, **details):
        self.ev(event or "checks")
        if not cond:
            self.viol(what, **details)

    def call(self, what, fn, /, *args, **kw):
        self.ev("calls")
        try:
            return fn(*args, **kw)
        except CaseEnd:
            raise
        except Exception as e:
            self.viol("%s raised %s" % (what, type(e).__name__),
                      error=str(e)[:300],
                      where=traceback.format_exc(limit=-4)[-900:])

    def num(self, got, what):
        """The result as a Python float (longdouble kept)."""
        try:
            a = np.asarray(got)
            if a.dtype == object:
                a = np.asarray(a, dtype=float)
            if a.size != 1 or a.dtype.kind not in "biuf":
                raise TypeError
            a = a.reshape(())
        except Exception:
            self.viol("%s is not a real number" % what, got=repr(got)[:200])
        return a.astype(np.longdouble)[()]

    def close(self, got, want, tol, what, event="compared", /, **details):
        g = self.num(got, what)
        self.ev(event)
        w = np.longdouble(want)
        if np.isnan(w):
            ok = bool(np.isnan(g))
        elif np.isinf(w):
            ok = bool(g == w)
        else:
            d = abs(g - w)
            ok = bool(d <= tol)
            if tol > 0:
                self.mx("err/tol", d / tol)
                if d > 0.01 * tol:
                    self.mx("err/tol: " + what, d / tol)
        if not ok:
            self.viol(what, **{**details, "got": float(g), "want": float(w),
                               "tol": float(tol)})
        return g

    def allclose(self, got, want, tol, what, event="compared", /,
                 **details):
        """Same shape and every element within tol (array or scalar)."""
        try:
            g = np.asarray(got)
            if g.dtype == object:
                g = g.astype(float)
            g = g.astype(np.longdouble)
        except Exception:
            self.viol("%s: not a numeric array" % what, got=repr(got)[:200])
        w = np.asarray(want, dtype=np.longdouble)
        self.ev(event, max(1, w.size))
        if g.shape != w.shape:
            self.viol("%s: shape" % what, **{**details, "got": g.shape,
                                             "want": w.shape})
        d = np.abs(g - w)
        same = (g == w) | (np.isnan(g) & np.isnan(w))
        bad = ~(same | (d <= tol))
        if d.size:
            with np.errstate(all="ignore"):
                t = np.broadcast_to(np.asarray(tol, np.longdouble), d.shape)
                r = np.where(same | (t == 0), 0, d / t)
                if r.size and not np.isnan(r).all():
                    self.mx("err/tol", np.nanmax(r))
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            self.viol(what, **{**details, "index": i, "got": float(g[i]),
                               "want": float(w[i]),
                               "n_bad": int(bad.sum())})


def show(v):
    if isinstance(v, np.ndarray):
        if v.size <= 40:
            return {"shape": v.shape, "dtype": str(v.dtype),
                    "values": [str(x) if v.dtype == object else float(x)
                               for x in v.ravel()]}
        return {"shape": v.shape, "dtype": str(v.dtype),
                "head": [str(x) for x in v.ravel()[:8]]}
    if isinstance(v, (int, float, str, bool, type(None))):
        return v
    if isinstance(v, (list, tuple)) and len(v) < 30:
        return [show(x) for x in v]
    return repr(v)[:300]


def through_dcor(tb):
    """Does the traceback go through the code under test?"""
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "/dcor"):
            return True
        tb = tb.tb_next
    return False


def rng_for(seed, *key):
    words = [seed & 0xffffffff]
    for k in key:
        words.append(int.from_bytes(
            hashlib.blake2b(repr(k).encode(), digest_size=4).digest(),
            "little"))
    return np.random.default_rng(words)


def run_case(ctx, mod, case):
    ctx.case = case
    ctx.cases += 1
    kind = case["kind"]
    ctx.kinds[kind] = ctx.kinds.get(kind, 0) + 1
    rng = rng_for(ctx.seed, ctx.prop, kind, case.get("params"),
                  case.get("i"))
    try:
        mod.KINDS[kind](ctx, rng, **case.get("params", {}))
    except CaseEnd:
        pass
    except Exception as e:
        if through_dcor(e.__traceback__):
            try:
                ctx.viol("raised %s" % type(e).__name__, error=str(e)[:300],
                         where=traceback.format_exc(limit=-4)[-900:])
            except CaseEnd:
                pass
        else:
            raise


def main():
    ap = argparse.ArgumentParser()
    for o in ("prop", "lane", "tier", "out", "replay"):
        ap.add_argument("--" + o)
    for o in ("shard", "nshards", "seed"):
        ap.add_argument("--" + o, type=int)
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()

    ctx = Ctx(a.prop, a.tier, a.seed, a.lane)
    ctx.shard, ctx.nshards = a.shard, a.nshards
    try:
        import dcor
        assert dcor.__file__.startswith(REPO + "/"), dcor.__file__
        mod = importlib.import_module("props." + a.prop.lower())
        jpath = a.out + ".journal"

        def go(case):
            with open(jpath + ".tmp", "w") as f:
                json.dump(case, f)
            os.replace(jpath + ".tmp", jpath)
            run_case(ctx, mod, case)

        t0 = time.time()
        ctx.t0, ctx.budget = t0, a.budget
        if a.replay:
            with open(a.replay) as f:
                go(json.load(f)["case"])
        else:
            # 1. systematic part: always complete, split between the workers
            for i, (kind, params) in enumerate(mod.systematic(ctx)):
                if i % a.nshards == a.shard:
                    go({"kind": kind, "params": params, "i": 0})
                if len(ctx.violations) >= 20:
                    break
            ctx.mx("systematic_s", time.time() - t0)
            # 2. random part: until the time is over
            i = a.shard
            gen = getattr(mod, "random_case", None)
            while gen and time.time() - t0 < a.budget \
                    and len(ctx.violations) < 20:
                r = rng_for(a.seed, a.prop, a.lane, "pick", i)
                kind, params = gen(ctx, r)
                go({"kind": kind, "params": params, "i": i})
                i += a.nshards
            fin = getattr(mod, "finish", None)
            if fin:
                ctx.case = {"kind": "finish", "params": {}}
                try:
                    fin(ctx)
                except CaseEnd:
                    pass
    except Exception:
        traceback.print_exc()
        print("case:", json.dumps(ctx.case, default=str))
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(3)
    if a.replay:
        print(json.dumps(ctx.violations, indent=1, default=str))
    with open(a.out + ".tmp", "w") as f:
        json.dump({
            "cases": ctx.cases, "events": ctx.events, "kinds": ctx.kinds,
            "maxima": ctx.maxima,
            "features": {k: list(v) for k, v in ctx.features.items()},
            "violations": ctx.violations, "samples": ctx.samples,
            "digests": list(ctx.digests),
            "inconclusive": ctx.n_inconclusive}, f, default=str)
    os.replace(a.out + ".tmp", a.out)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
