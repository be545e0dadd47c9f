#!/usr/bin/env python3
"""Orchestrator of the runtime-monitoring checks.

    python3 check.py C01 [--tier quick|thorough] [--replay FILE]

Compiles dcor from /repo's current tree (numba cache keyed by the contents of
the sources), runs the workload of one property in several monitored worker
processes, merges what their monitors observed, writes evidence/<id>.json and
ends with 0 (held), 1 (VIOLATION line printed) or 2 (the check itself failed:
no verdict).
"""
import argparse
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
WORKER = os.path.join(HERE, "vlib", "worker.py")

sys.path.insert(0, os.path.join(HERE, "vlib"))
from registry import PROPS  # noqa: E402  (stdlib-only table)


class CheckError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(os.path.join(REPO, "dcor")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                p = os.path.join(base, f)
                st = os.stat(p)
                h.update(p.encode() + b"\0")
                h.update(str((st.st_mtime_ns, st.st_size)).encode())
                with open(p, "rb") as fd:
                    h.update(fd.read())
    return h.hexdigest()[:20]


def base_env(cache, extra):
    env = {
        k: v for k, v in os.environ.items()
        if not k.startswith(("NUMBA_", "PYTHON", "OMP_", "OPENBLAS_", "MKL_",
                             "LOKY_", "JOBLIB_", "DCOR_"))
    }
    env.update({
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0",
        "NUMBA_CACHE_DIR": cache,
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1",
        "VERIF_REPO": REPO,
    })
    env.update(extra)
    return env


def compile_tree(lane_env, workdir):
    """Import dcor once so that the kernels are compiled and cached."""
    numba_env = {k: v for k, v in lane_env.items() if k.startswith("NUMBA_")
                 and k != "NUMBA_NUM_THREADS"}
    key = tree_hash() + "-" + hashlib.sha256(
        json.dumps(numba_env, sort_keys=True).encode()).hexdigest()[:8]
    root = os.path.join(HERE, ".cache", "numba")
    cache = os.path.join(root, key)
    try:
        os.makedirs(cache, exist_ok=True)
        # Keep only a few compiled trees.
        olds = sorted((os.path.join(root, d) for d in os.listdir(root)),
                      key=os.path.getmtime)
        for d in olds[:-6]:
            if d != cache:
                shutil.rmtree(d, ignore_errors=True)
        os.utime(cache)
    except OSError:
        cache = os.path.join(workdir, "numba-" + key)
        os.makedirs(cache, exist_ok=True)
    t0 = time.time()
    r = subprocess.run(
        [PYTHON, "-B", "-c",
         "import sys; sys.path.insert(0, %r); import warnings;"
         "warnings.simplefilter('ignore'); import dcor;"
         "assert dcor.__file__.startswith(%r), dcor.__file__"
         % (REPO, REPO + "/")],
        env=base_env(cache, numba_env), cwd=workdir,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if r.returncode:
        raise CheckError("dcor does not import from %s:\n%s" % (
            REPO, r.stdout.decode(errors="replace")[-3000:]))
    return cache, time.time() - t0


def spawn(prop, lane, shard, nshards, tier, seed, budget, cache, env, workdir,
          replay=None, tag="", wrap=()):
    out = os.path.join(workdir, "%s-%s-%d%s.json" % (prop, lane, shard, tag))
    cmd = [w.replace("{log}", out + ".vg") for w in wrap]
    cmd += [PYTHON, "-B", "-X", "faulthandler", WORKER, "--prop", prop,
            "--lane", lane, "--shard", str(shard), "--nshards", str(nshards),
            "--tier", tier, "--seed", str(seed), "--budget", str(budget),
            "--out", out]
    if replay:
        cmd += ["--replay", replay]
    log = open(out + ".log", "wb")
    p = subprocess.Popen(cmd, env=base_env(cache, env), cwd=workdir,
                         stdout=log, stderr=subprocess.STDOUT,
                         start_new_session=True)
    return {"p": p, "out": out, "lane": lane, "shard": shard, "log": log,
            "nshards": nshards, "cache": cache, "env": env}


def kill_group(w):
    try:
        os.killpg(w["p"].pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    w["p"].wait()


def journal(w):
    try:
        with open(w["out"] + ".journal") as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def tail(w, n=2500):
    try:
        with open(w["out"] + ".log", "rb") as f:
            return f.read()[-n:].decode(errors="replace")
    except OSError:
        return ""


def valgrind_errors(path):
    """(errors, errors with a frame in JIT-compiled code, first of these)."""
    try:
        with open(path, errors="replace") as f:
            text = f.read()
    except OSError:
        return None, 0, ""
    m = re.findall(r"ERROR SUMMARY: (\d+) errors", text)
    if not m:
        return None, 0, ""
    blocks = re.split(r"^==\d+== $", text, flags=re.M)
    jit = [b for b in blocks if re.search(
        r"(uninitialised|Invalid (read|write)|Invalid free)", b)
        and re.search(r"(at|by) 0x[0-9A-F]+: \?\?\?$", b, flags=re.M)]
    return int(m[-1]), len(jit), (jit[0][:2000] if jit else "")


def wait_all(workers, hard):
    """Wait for the workers. A worker past ``hard`` seconds is ended."""
    end = time.time() + hard
    for w in workers:
        left = max(0.1, end - time.time())
        try:
            w["rc"] = w["p"].wait(timeout=left)
        except subprocess.TimeoutExpired:
            w["rc"] = "timeout"
        kill_group(w)
        w["log"].close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.time()
    info = PROPS[a.prop]
    workdir = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    try:
        return run(a, info, workdir, t0)
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (a.prop, e))
        return 2
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def run(a, info, workdir, t0):
    budget = a.budget or info["budget"][a.tier]
    lanes = info.get("lanes", [{"name": "std", "env": {}, "workers": 8}])
    lanes = [x for x in lanes if a.tier in x.get("tiers", [a.tier])]
    # Compile each variant of the kernels once, the variants in parallel.
    tc = time.time()
    variants = {}
    for lane in lanes:
        lane["variant"] = json.dumps(
            {k: v for k, v in lane["env"].items()
             if k.startswith("NUMBA_") and k != "NUMBA_NUM_THREADS"},
            sort_keys=True)
        variants[lane["variant"]] = lane["env"]
    with ThreadPoolExecutor(4) as ex:
        futures = {k: ex.submit(compile_tree, v, workdir)
                   for k, v in variants.items()}
        for lane in lanes:
            lane["cache"] = futures[lane["variant"]].result()[0]
    compile_s = time.time() - tc

    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        lane = next(x for x in lanes if x["name"] == rec["lane"])
        w = spawn(a.prop, lane["name"], 0, 1, rec.get("tier", a.tier),
                  rec.get("seed", a.seed), 600, lane["cache"], lane["env"],
                  workdir, replay=os.path.abspath(a.replay))
        wait_all([w], 880)
        print(tail(w, 8000))
        try:
            with open(w["out"]) as f:
                res = json.load(f)
        except (OSError, ValueError):
            res = None
        if res is None or res["violations"]:
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1
        return 0

    workers = []
    for lane in lanes:
        for i in range(lane["workers"]):
            workers.append(spawn(
                a.prop, lane["name"], i, lane["workers"], a.tier, a.seed,
                budget, lane["cache"], lane["env"], workdir,
                wrap=lane.get("wrap", ())))
    hard = budget + info.get("grace", 300)
    wait_all(workers, hard)

    merged = {"cases": 0, "events": {}, "violations": [], "samples": [],
              "digests": set(), "inconclusive": 0, "kinds": {}, "maxima": {},
              "features": {}}
    errors = []
    # The process under observation died or never came back: run the case it
    # was executing alone, in a fresh process.
    retries = {}
    for w in workers:
        case = journal(w) if w["rc"] not in (0, 3) else None
        if case is None:
            continue
        lane = next(x for x in lanes if x["name"] == w["lane"])
        rp = os.path.join(workdir, "retry-%s-%d.json" % (
            w["lane"], w["shard"]))
        with open(rp, "w") as f:
            json.dump({"prop": a.prop, "lane": w["lane"], "tier": a.tier,
                       "seed": a.seed, "case": case}, f)
        retries[id(w)] = spawn(
            a.prop, w["lane"], w["shard"], 1, a.tier, a.seed, 60,
            lane["cache"], lane["env"], workdir, replay=rp, tag="-retry")
    wait_all(list(retries.values()), info.get("hang_s", 150))
    for w in workers:
        lane = next(x for x in lanes if x["name"] == w["lane"])
        res = None
        if w["rc"] == 0:
            try:
                with open(w["out"]) as f:
                    res = json.load(f)
            except (OSError, ValueError) as e:
                errors.append("worker wrote no result: %s" % e)
        elif w["rc"] == 3:
            errors.append("harness error in lane %s shard %d:\n%s" % (
                w["lane"], w["shard"], tail(w)))
        else:
            case = journal(w)
            if case is None:
                errors.append("worker ended with %r before any case\n%s" % (
                    w["rc"], tail(w)))
                continue
            w2 = retries[id(w)]
            fatal = isinstance(w["rc"], int) and w["rc"] in (
                -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGABRT,
                -signal.SIGFPE, -signal.SIGILL)
            if fatal or (w2["rc"] not in (0, 3)):
                merged["violations"].append({
                    "case": case, "lane": w["lane"],
                    "what": "the process %s while executing this case"
                    % ("died with signal %d" % -w["rc"] if fatal
                       else "did not finish (%r, alone: %r)" % (
                           w["rc"], w2["rc"])),
                    "details": {"log": tail(w)}})
            else:
                errors.append(
                    "worker ended with %r and the case passes alone: %r\n%s"
                    % (w["rc"], case, tail(w)))
        if lane.get("wrap") and res:
            total, ours, text = valgrind_errors(w["out"] + ".vg")
            merged["events"]["valgrind_reports_read"] = 1
            merged["maxima"]["valgrind_errors"] = total or 0
            if total is None:
                errors.append("no Valgrind report")
            elif ours:
                merged["violations"].append({
                    "case": {"kind": "valgrind", "params": {}},
                    "lane": w["lane"], "what": "Valgrind reports invalid or "
                    "uninitialised memory in a compiled kernel",
                    "details": {"errors": ours, "log": text}})
        if res:
            merged["cases"] += res["cases"]
            merged["inconclusive"] += res["inconclusive"]
            for k, v in res["events"].items():
                merged["events"][k] = merged["events"].get(k, 0) + v
            for k, v in res["kinds"].items():
                merged["kinds"][k] = merged["kinds"].get(k, 0) + v
            for k, v in res["maxima"].items():
                merged["maxima"][k] = max(merged["maxima"].get(k, 0), v)
            for k, v in res["features"].items():
                merged["features"].setdefault(k, set()).update(v)
            for v in res["violations"]:
                v["lane"] = w["lane"]
                merged["violations"].append(v)
            merged["samples"] += res["samples"]
            merged["digests"].update(res["digests"])

    # Obligatory events: a monitor that saw nothing has decided nothing.
    for ev in info.get("must_observe", []):
        if not merged["events"].get(ev) and not errors \
                and not merged["violations"]:
            errors.append("monitor event %r was never observed" % ev)

    known = load_known(a.prop)
    fresh, seen = [], {}
    for v in merged["violations"]:
        key = v.get("key") or v["what"]
        hit = next((k for k in known if k["key"] == key), None)
        if hit:
            seen.setdefault(hit["key"], hit)
        else:
            fresh.append(v)
    for k in known:
        if k["key"] in seen:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))

    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    evidence = {
        "property": a.prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": info.get("level", "exploration"),
        "coverage": {
            "evaluations": merged["cases"],
            "distinct_nontrivial": len(merged["digests"]),
            "rule": info["rule"],
            "samples": merged["samples"][:12],
            "cases_per_kind": merged["kinds"],
            "monitor_events": merged["events"],
            "features_seen": {k: sorted(v, key=str)[:80]
                              for k, v in merged["features"].items()},
            "largest_observed": merged["maxima"],
            "inconclusive_cases": merged["inconclusive"],
            "lanes": {x["name"]: {"env": x["env"], "workers": x["workers"]}
                      for x in lanes},
            "compile_s": round(compile_s, 2),
            "tree": tree_hash(),
        },
        "assumptions": info.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    if merged["cases"] == 0 and not fresh:
        errors.append("no case was executed")
    with open(os.path.join(evdir, a.prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write("\n")

    if fresh:
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        by_what = {}
        for v in fresh:
            by_what.setdefault(v.get("key") or v["what"], v)
        first = None
        for i, v in enumerate(list(by_what.values())[:8]):
            path = os.path.join(rdir, "%s-%d.json" % (a.prop, i))
            with open(path, "w") as f:
                json.dump({"prop": a.prop, "lane": v["lane"], "tier": a.tier,
                           "seed": a.seed, "case": v["case"],
                           "what": v["what"], "details": v.get("details")},
                          f, indent=1, default=str)
            first = first or path
            print("violated: %s\n  case: %s\n  details: %s" % (
                v["what"], json.dumps(v["case"])[:400],
                json.dumps(v.get("details"), default=str)[:900]))
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
        print("%d violations in %d cases" % (len(fresh), merged["cases"]))
        return 1
    if errors:
        for e in errors[:4]:
            print("CHECK-ERROR property=%s %s" % (a.prop, e))
        return 2
    print("OK property=%s tier=%s seed=%d cases=%d distinct_nontrivial=%d "
          "monitor_events=%d inconclusive=%d compile=%.0fs wall=%.0fs" % (
              a.prop, a.tier, a.seed, merged["cases"],
              len(merged["digests"]), sum(merged["events"].values()),
              merged["inconclusive"], compile_s, time.time() - t0))
    return 0


def load_known(prop):
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            return [k for k in json.load(f)["known"] if k["property"] == prop]
    except OSError:
        return []


if __name__ == "__main__":
    sys.exit(main())
