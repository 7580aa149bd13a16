"""Writes MANIFEST.json from vx/props.py and the list of properties that are not claimed."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vx import props
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {
    "C21": "Throughput is a runtime quantity of the processor and the compiled code; no argument about the source bounds it, so static analysis cannot decide it.",
}
checks = []
for i in ids:
    P = props.PROPS.get(i)
    if P is None:
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                   "technique": P.technique, "level": P.level, "level_note": P.note})
na = [{"property": i, "reason": NA.get(i, "No check for this property is finished yet.")} for i in ids if i not in props.PROPS]
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "notes": "Static analysis of rustc MIR dumped from /repo's current tree by a compiler wrapper (driver/dump.rs); no hooks in /repo."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
