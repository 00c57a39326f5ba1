#!/usr/bin/env python3
"""regenerate properties.jsonl and MANIFEST.json from props.py"""
import json, os
from props import PROPS, NOT_APPLICABLE
H = os.path.dirname(os.path.abspath(__file__))
TECH = "symbolic execution of the real LLVM IR with z3 deciding every branch and obligation"
NOTE = ("Bounded, solver-decided over all values within the bounds on every explored path (all paths of the harness are explored; a limit "
        "makes the check fail, not pass). Reals instead of IEEE doubles; counterexamples are replayed natively before being reported. ")
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in list(PROPS.values()) + NOT_APPLICABLE:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                 "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                 "technique": TECH, "level": p["level"], "level_note": NOTE + p["bounds"] + (" " + p["note"] if p["note"] else "")}
                for p in PROPS.values()],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE]}
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
for p in PROPS.values():
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(PROPS), "claimed,", len(NOT_APPLICABLE), "not applicable")
