#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py."""
import json, os, sys
sys.dont_write_bytecode = True
from spec import PROPS, NOT_APPLICABLE
H = os.path.dirname(os.path.abspath(__file__))
def line(pid, p):
    return {"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["otext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["anchors"], "state": list(p.get("state", ())), "mechanism": p["mechanism"],
                        "observe_at": p.get("observe", []), "hook_needed": p.get("hook")}}
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for pid in sorted(PROPS):
        f.write(json.dumps(line(pid, PROPS[pid])) + "\n")
    for p in NOT_APPLICABLE:
        f.write(json.dumps(line(p["pid"], p)) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "No hooks are needed: the checks compile /repo's unchanged sources with compiler instrumentation and interpose the C library underneath them.", "source_commits": []},
     "checks": [{"property": pid, "quick_cmd": "./check %s quick" % pid, "thorough_cmd": "./check %s thorough" % pid,
                 "evidence_file": "evidence/%s.json" % pid,
                 "technique": "deterministic simulation with fault injection (seeded schedule and fault search)",
                 "level": "exploration", "level_note": PROPS[pid]["note"]} for pid in sorted(PROPS)],
     "not_applicable": [{"property": p["pid"], "reason": p["reason"]} for p in NOT_APPLICABLE]}
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
