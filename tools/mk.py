#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (tools/table.py) and the registered rules."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "tools"), os.path.join(V, "engine"), os.path.join(V, "rules")]
import table
import props

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in table.PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None},
        }) + "\n")

checks, na = [], []
for p in table.PROPS:
    if p["id"] in props.REG:
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 engine/run.py %s" % p["id"],
            "thorough_cmd": "python3 engine/run.py --tier thorough %s" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p.get("technique", "path-sensitive dataflow over inlined MIR: guard dominance, must-follow ordering, who-may-write"),
            "level": "other",
            "level_note": p["note"],
        })
    else:
        na.append({"property": p["id"], "reason": p.get("na", "no rule registered yet")})
m = {"version": 1, "setup_cmd": "python3 engine/facts.py", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: every check extracts the type-resolved MIR of /repo's working tree with a rustc driver (nothing is run), inlines it into per-event control-flow graphs and decides path obligations on them. No hooks in /repo."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
print(len(checks), "checks", len(na), "not applicable")
