#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (kept in one place so that they
stay in step)."""
import json, os
from props import PROPS, NOT_APPLICABLE

ROOT = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for pid in sorted(list(PROPS) + list(NOT_APPLICABLE)):
        p = PROPS.get(pid) or NOT_APPLICABLE[pid]
        d = {"id": pid, "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                         "hook_needed": None}}
        if "observe" in p:
            d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py build",
     "checks": [{"property": pid, "quick_cmd": "python3 check.py %s" % pid, "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                 "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for pid, p in sorted(PROPS.items())],
     "not_applicable": [{"property": pid, "reason": p["reason"]} for pid, p in sorted(NOT_APPLICABLE.items())],
     "notes": "No hooks in /repo: every seam is either an exported API or sits in an overlay of the Go standard library (overlay/gen.py)."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
