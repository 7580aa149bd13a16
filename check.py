#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from vx import arena  # noqa: E402
arena.install()
sys.setrecursionlimit(20000)

from vx import props, build, runner  # noqa: E402


def known():
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if not ln or ln.startswith("#") or ln.startswith("fixed:"):
                continue
            prop, _, key = ln.partition(" ")
            out.setdefault(prop, set()).add(key)
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = props.PROPS[pid]
    evdir = os.environ.get("VX_EVID") or os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    ev = os.path.join(evdir, pid + ".json")
    results = []
    try:
        build.workdir()
        tasks = P.tasks(tier)
        results = runner.run(tasks, total=780 if tier == "quick" else 3300)
    except build.BuildError as e:
        ok, out = build.check("harness")
        if ok:
            results = [{"name": "build", "stats": {}, "viol": [], "obl": [("build", "undecided", "the program builds, but the compiler wrapper cannot dump it: " + str(e)[-1500:])]}]
        else:
          results = [{"name": "build", "stats": {}, "obl": [("build", "violated", "the analysed program no longer builds")],
                    "viol": [{"obligation": "build", "message": "the public interface this property is stated over no longer builds with the analysis harness", "where": "/repo", "detail": str(e)[-3000:]}]}]
    kn = known().get(pid, set())
    viol, found = [], []
    for r in results:
        for v in r["viol"]:
            key = v["obligation"] + "|" + v["message"]
            (found if key in kn else viol).append((key, v))
    obl = [o for r in results for o in r["obl"]]
    proved = [o for o in obl if o[1] == "proved"]
    und = [o for o in obl if o[1] == "undecided"]
    fns = sorted({f for r in results for f in r["stats"].get("functions", [])})
    exits = sorted({f for r in results for f in r["stats"].get("exits", [])})
    counts = {}
    for r in results:
        for k, v in r["stats"].items():
            if isinstance(v, int):
                counts[k] = counts.get(k, 0) + v
    if tier:
        cov = {
            "explanation": P.explanation,
            "rule": P.rule,
            "obligations": len(obl),
            "discharged": len(proved),
            "undecided": [{"obligation": o[0], "why": str(o[2])[:600]} for o in und],
            "violated": [v["obligation"] for _, v in viol + found],
            "counts": counts,
            "functions_analysed": fns,
            "path_classes": exits[:400],
            "tasks": [{"task": r["name"], "wall_s": r.get("wall"), "proved": sum(1 for o in r["obl"] if o[1] == "proved"), "other": sum(1 for o in r["obl"] if o[1] != "proved"),
                       "notes": r["stats"].get("notes", [])[:60]} for r in results],
            "obligation_ids": sorted({o[0] for o in proved})[:800],
        }
        if P.level == "proof":
            cov["checker_cmd"] = "python3 /verif/check.py %s %s" % (pid, tier)
            cov["trusted_base"] = P.trusted
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": P.level, "coverage": cov, "wall_s": round(time.time() - t0, 2)}, open(ev, "w"), indent=1, default=str)
    print("%s %s: %d obligations, %d discharged, %d undecided, %d violated; %d repository functions analysed; %.1f s" % (
        pid, tier, len(obl), len(proved), len(und), len(viol) + len(found), len(fns), time.time() - t0))
    for o in und[:40]:
        print("  undecided: %s: %s" % (o[0], str(o[2])[:300]))
    for key, v in found:
        print("KNOWN-FINDING: property=%s %s" % (pid, key))
    if viol:
        rp = os.path.join(evdir, pid + ".violation.json")
        json.dump([v for _, v in viol], open(rp, "w"), indent=1, default=str)
        for _, v in viol[:10]:
            print("  rule broken: %s" % v["obligation"])
            print("    %s" % v["message"])
            print("    at: %s" % (v["where"],))
            print("    %s" % json.dumps(v["detail"], default=str)[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.stdout.flush()
        build.cleanup()
        os._exit(1)
    sys.stdout.flush()
    build.cleanup()
    os._exit(0)


main()
