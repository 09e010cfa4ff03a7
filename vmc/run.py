"""Runner: python -m vmc.run <ID> <tier> [--replay FILE] [--case SUBSTR] [--serial]"""
import argparse
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import re
import signal
import sys
import time
import traceback

from vmc.core import Rec

HOME = os.environ.get("VMC_HOME", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
CASE_TIMEOUT = {"quick": 400, "thorough": 3000}
TOTAL_BUDGET = {"quick": 780, "thorough": 6 * 3600}

_MOD = None
_TIER = "quick"


class CaseTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def _run_case(case_id):
    import numpy as np

    rec = Rec(case_id)
    seed = int(hashlib.sha1(case_id.encode()).hexdigest()[:8], 16)
    np.random.seed(seed)
    random.seed(seed)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT[_TIER])
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), np.errstate(all="ignore"):
            _MOD.run_case(case_id, _TIER, rec)
    except CaseTimeout:
        rec.viol("timeout", "case did not terminate within %d s" % CASE_TIMEOUT[_TIER])
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        in_repo = [f for f in tb if "/lenstronomy/" in f.filename and "/vmc/" not in f.filename]
        where = "%s:%s" % (os.path.basename(in_repo[-1].filename), in_repo[-1].name) if in_repo else "harness"
        rec.viol("exception:%s" % type(e).__name__, "in %s: " % where + traceback.format_exc()[-1800:])
    finally:
        signal.alarm(0)
    d = rec.dump()
    d["wall"] = time.time() - t0
    return d


def _run_chunk(ids):
    return [_run_case(c) for c in ids]


def known_findings(prop):
    path = os.path.join(HOME, "known_findings.txt")
    res = {}
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def main():
    global _MOD, _TIER
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default="quick")
    ap.add_argument("--replay")
    ap.add_argument("--case")
    ap.add_argument("--serial", action="store_true")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--times", action="store_true")
    a = ap.parse_args()
    _TIER = a.tier if a.tier in CASE_TIMEOUT else "quick"
    t0 = time.time()
    from vmc.registry import REGISTRY

    spec = REGISTRY[a.prop]
    if not spec.get("jit", True):
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    import warnings

    warnings.simplefilter("ignore")
    devnull = io.StringIO()
    try:
        with contextlib.redirect_stdout(devnull):
            _MOD = importlib.import_module("vmc.checks." + spec["module"])
            cases = list(_MOD.cases(_TIER))
    except Exception:
        tb = traceback.format_exc()
        print(tb, file=sys.stderr)
        if "lenstronomy" in tb.split("vmc/checks")[-1]:
            finish(a, spec, [dict(case="import", states=set(), outcomes=set(), transitions=0, traces=0, evals=1,
                                  violations=[{"key": "import", "case": "import", "detail": tb[-1800:]}],
                                  samples=[], muted=0, wall=0)], t0, False, [])
        sys.exit(2)
    if len(set(cases)) != len(cases):
        print("duplicate case ids", file=sys.stderr)
        sys.exit(2)
    if a.replay:
        want = json.load(open(a.replay))["case"]
        cases = [c for c in cases if c == want]
        a.serial = True
    if a.case:
        cases = [c for c in cases if a.case in c]
    if a.list:
        print("\n".join(cases))
        sys.exit(0)
    results = []
    capped = False
    if a.serial:
        results = [_run_case(c) for c in cases]
    else:
        ctx = mp.get_context("fork")
        n = min(int(os.environ.get("VMC_PROCS", os.cpu_count() or 4)), 8, max(1, len(cases)))
        if hasattr(_MOD, "warmup"):
            with contextlib.redirect_stdout(devnull):
                try:
                    _MOD.warmup()
                except Exception:
                    pass
        chunk = spec.get("chunk", max(1, min(8, len(cases) // (n * 8))))
        fail_fast, known = os.environ.get("VMC_FAILFAST"), known_findings(a.prop)
        pool = ctx.Pool(n)
        try:
            chunks = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]
            it = pool.imap_unordered(_run_chunk, chunks)
            for _ in chunks:
                left = TOTAL_BUDGET[_TIER] - (time.time() - t0)
                try:
                    results += it.next(timeout=max(left, 1))
                    if fail_fast and any(v["key"] not in known for r in results for v in r["violations"]):
                        break
                except mp.TimeoutError:
                    capped = True
                    break
        finally:
            pool.terminate()
            pool.join()
    if a.times:
        for r in sorted(results, key=lambda r: -r["wall"])[:25]:
            print("%8.2f s  %s" % (r["wall"], r["case"]))
    sys.exit(finish(a, spec, results, t0, capped, cases))


def finish(a, spec, results, t0, capped, cases):
    prop = a.prop
    known = known_findings(prop)
    states, outcomes = set(), set()
    transitions = traces = evals = muted = 0
    violations, samples = [], []
    for r in results:
        states |= {r["case"] + ":" + s for s in r["states"]}
        outcomes |= r["outcomes"]
        transitions += r["transitions"]
        traces += r["traces"]
        evals += r["evals"]
        muted += r["muted"]
        violations += r["violations"]
        samples += [{**s, "case": r["case"]} for s in r["samples"]]
    done = {r["case"] for r in results}
    if capped:
        missing = [c for c in cases if c not in done]
        violations.append({"key": "budget|cases-not-finished", "case": missing[0] if missing else "?",
                           "detail": "%d of %d cases did not finish within the time budget: %s"
                                     % (len(missing), len(cases), missing[:5])})
    fresh = [v for v in violations if v["key"] not in known]
    old = [v for v in violations if v["key"] in known]
    # report the shortest case id / simplest first
    fresh.sort(key=lambda v: (len(v["case"]), v["key"]))
    for k in sorted({v["key"] for v in old}):
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, known[k], k))
    ev_dir = os.path.join(HOME, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    if not (a.case or a.replay):
        level = spec.get("level", "model_checking")
        step = max(1, len(samples) // 6)
        smp = samples[::step][:6] or [dict(case=c) for c in list(done)[:3]]
        cov = dict(states=len(states), transitions=transitions, traces_validated_against_impl=traces,
                   samples=smp, exhaustive=not capped, cases=len(done), evaluations=evals,
                   bounds=spec.get("bounds", {}).get(a.tier, spec.get("bounds", {}).get("quick", "")))
        cov["distinct_nontrivial"] = len(outcomes)
        cov["rule"] = spec.get("rule", "outcomes counted once per distinct rounded value of the observations")
        ev = dict(property=prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick",
                  seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level, coverage=cov,
                  wall_s=round(time.time() - t0, 2), violations=len(fresh),
                  known_findings=sorted({v["key"] for v in old}),
                  assumptions=spec.get("assumptions", []))
        with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: cases=%d states=%d transitions=%d traces=%d evaluations=%d distinct_outcomes=%d wall=%.1fs"
          % (prop, a.tier, len(done), len(states), transitions, traces, evals, len(outcomes), time.time() - t0))
    if fresh:
        rp = os.path.join(HOME, "replays")
        os.makedirs(rp, exist_ok=True)
        seen = set()
        for v in fresh[:20]:
            h = hashlib.sha1(v["key"].encode()).hexdigest()[:10]
            path = os.path.join(rp, "%s-%s.json" % (prop, h))
            with open(path, "w") as f:
                json.dump(dict(property=prop, tier=a.tier, replay_cmd="%s/check.sh %s %s --replay %s" % (HOME, prop, a.tier, path), **v), f, indent=1)
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   key=%s" % v["key"])
            print("   " + v["detail"].strip().replace("\n", "\n   ")[:1500])
        if os.environ.get("VMC_SUMMARY"):
            from collections import defaultdict
            g = defaultdict(list)
            for v in fresh:
                g[v["key"].rsplit("|", 1)[-1]].append(v)
            for k, vs in sorted(g.items(), key=lambda kv: -len(kv[1])):
                print("SUMMARY %5d %s" % (len(vs), k))
                for v in vs[:int(os.environ["VMC_SUMMARY"])]:
                    print("      ", v["case"], "::", v["detail"].strip().replace("\n", " ")[-300:])
        print("%d violation(s)%s" % (len(fresh), " (+%d muted)" % muted if muted else ""))
        return 1
    return 0


if __name__ == "__main__":
    main()
