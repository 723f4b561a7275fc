#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's current working tree.

 1. extract the functions from /repo, derive their contracts and obligations, let Verus decide them
 2. run the real code on concrete inputs: the replay of a failed obligation, and the (bounded) stand-in
    for obligations which could not be generated
"""
import concurrent.futures as cf
import json
import os
import re
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
from props import PROPS  # noqa: E402

BUILD = os.path.join(ROOT, ".build")
LIMIT = float(os.environ.get("CHECK_LIMIT", "780"))
T0 = time.time()


def left():
    return LIMIT - (time.time() - T0)


def cargo_env(target):
    e = dict(os.environ)
    e.update(HOME="/root", PATH="/root/.cargo/bin:" + e.get("PATH", ""), RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
             CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=os.path.join(BUILD, target))
    return e


# ------------------------------------------------------------------ the real code on concrete inputs
FEATURES = ["guid", "attrs", "enums", "build", "store", "geo", "query", "setters", "read", "moves"]


def build_replay():
    """-> (path of the program or None, parts of it left out, log)"""
    feats = list(FEATURES)
    dropped = []
    while True:
        p = subprocess.run(["cargo", "build", "--offline", "--no-default-features", "--features", ",".join(feats)], cwd=os.path.join(ROOT, "replay"),
                           env=cargo_env("replay"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            return os.path.join(BUILD, "replay/debug/replay"), dropped, p.stdout
        bad = [f for f in feats if re.search(r"--> src/%s\.rs|in file included from.*%s|/%s_src\.rs" % (f, f, f), p.stdout)]
        if not bad:
            return None, dropped, p.stdout
        for b in bad:
            feats.remove(b)
            dropped.append(b)


def run_replay(exe, prop, seed, tier):
    p = subprocess.run([exe, prop, str(seed), tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=max(60, left() + 60), errors="replace")
    try:
        return json.loads(p.stdout.strip().split("\n")[-1])
    except (ValueError, IndexError):
        # the process itself died (stack overflow, abort)
        return {"cases": 0, "distinct": 0, "samples": [], "fails": [{"property": prop, "kind": "crash", "input": "", "what": "the program died with status %s: %s" % (p.returncode, p.stderr[-500:]), "seed": seed}]}


# ------------------------------------------------------------------ main
def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    out_dir = os.path.join(ROOT, "out", prop)
    os.makedirs(out_dir, exist_ok=True)
    P = PROPS[prop]

    rep = {}

    def replay_job():
        try:
            exe, dropped, log = build_replay()
            rep["dropped"] = dropped
            if exe is None:
                rep["error"] = log[-3000:]
                return
            rep["exe"] = exe
            rep["run"] = run_replay(exe, prop, seed, tier)
        except Exception:
            rep["error"] = traceback.format_exc()

    th = threading.Thread(target=replay_job)
    th.start()

    # obligations of all provers of this property
    from obligations import Result
    res = Result()
    for f in P["provers"]:
        try:
            f(res, out_dir, left)
        except Exception:
            res.undecided.append(("%s" % f.__name__, "the contracts could not be generated: " + traceback.format_exc()[-1500:]))
    th.join()

    failed = res.failed
    und = list(res.undecided)
    fails = rep.get("run", {}).get("fails", [])
    violation = None
    if fails:
        f = dict(fails[0])
        f["tier"] = tier
        f["obligations"] = [{"obligation": n, "message": m} for n, m in failed[:20]]
        f["rerun"] = "cd /verif && python3 tools/rerun.py <this file>"
        violation = (f, "")
    elif failed:
        f = {"property": prop, "obligation": failed[0][0], "obligations": [{"obligation": n, "verifier_output": m} for n, m in failed[:20]],
             "what": "obligations generated from the current source are no longer accepted by the verifier; no failing input was found by %s runs of the real code" % rep.get("run", {}).get("cases", 0),
             "rerun": "cd /verif && " + " ".join(P["rerun"]) if P.get("rerun") else "cd /verif && python3 tools/check.py " + prop}
        violation = (f, " no-failing-input-found")

    for n, m in failed[:20]:
        print("FAILED OBLIGATION %s" % n)
        print("  " + "\n  ".join(m.split("\n")[:8]))
    for n, m in und[:20]:
        print("UNDECIDED %s: %s (bounded stand-in on the real code)" % (n, m.split("\n")[-1][:200] if "Traceback" in m else m[:200]))
    for f in fails[:5]:
        print("FAILING INPUT %s: %s -> %s" % (f["kind"], f["input"][:200].replace("\n", "\\n"), f["what"][:300]))
    known = []
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": P["level"],
        "coverage": {
            "obligations": res.total(), "discharged": res.discharged, "failed": len(failed), "undecided": len(und),
            "by_backend": res.backends, "solver_time_s": round(res.solver, 2), "functions_under_contract": len(res.functions),
            "functions": sorted(res.functions)[:400],
            "checker_cmd": res.cmd or "none", "trusted_base": P["trusted"],
            "undecided_obligations": [{"obligation": n, "why": m[-300:]} for n, m in und[:60]],
            "canaries": res.canaries,
            "bounded": {"label": "bounded: runs of the real code, never counted as proved", "evaluations": rep.get("run", {}).get("cases", 0),
                        "distinct_nontrivial": rep.get("run", {}).get("distinct", 0), "rule": P["rule"], "samples": rep.get("run", {}).get("samples", []),
                        "left_out": rep.get("dropped", [])},
            "evaluations": rep.get("run", {}).get("cases", 0), "distinct_nontrivial": rep.get("run", {}).get("distinct", 0), "rule": P["rule"],
            "samples": rep.get("run", {}).get("samples", []) or [""],
        },
        "assumptions": P["assumptions"], "wall_s": round(time.time() - T0, 2), "violations": 1 if violation else 0,
    }
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d failed, %d undecided; %d runs of the real code, %d failing (%.0f s)" % (
        prop, res.total(), res.discharged, len(failed), len(und), rep.get("run", {}).get("cases", 0), len(fails), time.time() - T0))
    if violation:
        path = os.path.join(out_dir, "replay.json")
        json.dump(violation[0], open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s%s" % (prop, path, violation[1]))
        return 1
    bad = [c for c in res.canaries if not c["ok"]]
    if bad:
        print("BROKEN CHECK: canary accepted: %s" % bad)
        return 2
    if "run" not in rep and (und or not res.discharged):
        print("NO ANSWER: the replay program doesn't build: %s" % rep.get("error", "")[-1500:])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
