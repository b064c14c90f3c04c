#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.abspath(__file__))
from props import PROPS, NOT_APPLICABLE
from checks import CHECKS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                        "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                        "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
checks = []
for p in PROPS:
    c = CHECKS.get(p["id"])
    if not c:
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"],
                   "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p["technique"], "level": c["level"], "level_note": p["note"]})
na = [{"property": a, "reason": b} for a, b in NOT_APPLICABLE]
claimed = {c["property"] for c in checks} | {n["property"] for n in na}
assert claimed == {p["id"] for p in PROPS}, claimed ^ {p["id"] for p in PROPS}
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks compile the unmodified sources with access instrumentation and their own runtime."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties", len(checks), "checks")
