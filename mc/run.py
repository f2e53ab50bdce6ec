#!/usr/bin/env python
"""run.py C01 [--tier quick|thorough] [--replay FILE] : decide one property."""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)

import mc.boot  # noqa: E402,F401
from mc import engine  # noqa: E402


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def signature(f):
    """Identifies one failure: the scenario plus the explicit key, or the exact choices taken."""
    return f["key"] if f.get("key") else f["scenario"] + "|" + ";".join("%s=%s" % (a, b) for a, b in f["trace"])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = "thorough" if a.tier == "thorough" else "quick"
    pid = a.prop.upper()
    mod = importlib.import_module("mc.checks." + pid.lower())
    scns = mod.scenarios(tier)
    if getattr(mod, "SHAP", False):
        mc.boot.warm_shap()
    if a.only:
        scns = [s for s in scns if a.only in s.name]

    if a.replay:
        rec = json.load(open(a.replay))
        scn = [s for s in mod.scenarios(rec.get("tier", "quick")) if s.name == rec["scenario"]][0]
        rc = 0
        for p in (rec["chunk"] if rec.get("needs_history") else [rec["choices"]]):
            ctx, fail, status = engine.execute(scn, p, rec.get("tier", "quick"), rec.get("seed", seed))
        for n, o in ctx.trace:
            print("  %s = %s" % (n, o))
        if fail:
            print("FAILS: %s" % fail["message"])
            print(fail.get("traceback", ""))
            rc = 1
        else:
            print("status: %s" % status)
        return rc

    kf = known_findings()
    known = {(k["property"], k["signature"]): k for k in kf.get("findings", [])}
    is_known = lambda f: (pid, signature(f)) in known
    log = (lambda s: print(s, file=sys.stderr, flush=True)) if a.v else None
    t0 = time.time()
    try:
        R = engine.explore(scns, tier, seed, is_known=is_known, log=log,
                           budget_s=600 if tier == "quick" else 6 * 3600)
    except engine.HarnessError as e:
        print("HARNESS-ERROR property=%s %s" % (pid, e))
        return 2

    new = [f for f in R.fails if not is_known(f)]
    os.makedirs(os.path.join(ROOT, "evidence", "replays"), exist_ok=True)
    printed = set()
    for f in R.fails:
        if is_known(f):
            k = known[(pid, signature(f))]
            if k["signature"] not in printed:
                printed.add(k["signature"])
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for f in new[:3]:
        scn = [s for s in scns if s.name == f["scenario"]][0]
        alone = engine._reproduces(scn, [f["prefix"]], tier, seed)
        path = os.path.join(ROOT, "evidence", "replays", "%s-%s.json" % (pid, engine.digest(signature(f)).hex()))
        json.dump({"property": pid, "scenario": f["scenario"], "tier": tier, "seed": seed,
                   "choices": f["prefix"], "trace": f["trace"], "kind": f["kind"], "message": f["message"],
                   "traceback": f.get("traceback"), "signature": signature(f),
                   "needs_history": not alone, "chunk": None if alone else f["chunk"],
                   "how": "/opt/venv/bin/python -W ignore mc/run.py %s --replay %s" % (pid, path)},
                  open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  scenario %s%s" % (f["scenario"], "" if alone else " (only after earlier executions in the same process)"))
        for n, o in f["trace"]:
            print("    %s = %s" % (n, o))
        print("  %s" % f["message"][:1500])

    step = max(1, len(R.samples) // 6)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": len(R.states),
            "transitions": R.ops,
            "traces_validated_against_impl": R.runs + R.extra,
            "samples": R.samples[::step][:8],
            "exhaustive": not R.capped,
            "caps": R.capped,
            "executions": R.runs,
            "combinations_outside_domain": R.skips,
            "per_scenario": R.per_scenario,
            "bounds": getattr(mod, "BOUNDS", ""),
            "meaning": "states = distinct (choices, observed outcome) digests, or canonical object states in explicit-state "
                       "searches; transitions = operations of the real library executed; traces = complete executions of the real "
                       "library compared step by step with the reference model",
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1, default=str)
    print("%s %s: executions=%d states=%d transitions=%d outside_domain=%d exhaustive=%s wall=%.1fs"
          % (pid, tier, R.runs + R.extra, len(R.states), R.ops, R.skips, not R.capped, time.time() - t0))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
