#!/usr/bin/env python3
"""Writes DESIGN.md: hand-written head and tail, and the generated part per property.   usage: design.py EVIDENCE_DIR"""
import glob, json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EV = sys.argv[1] if len(sys.argv) > 1 else os.path.join(V, "evidence")
sys.path[:0] = [os.path.join(V, "tools"), os.path.join(V, "engine"), os.path.join(V, "rules")]
import table, mutants, props
from collections import Counter

bad = Counter(m["prop"] for m in mutants.M if not m.get("benign"))
ben = Counter(m["prop"] for m in mutants.M if m.get("benign"))
T = lambda f: open(os.path.join(V, "tools", f)).read()
kf = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
seeds = {}
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    seeds[os.path.basename(os.path.dirname(d))] = json.load(open(d))
SB = json.load(open(os.path.join(V, "tools", "seed_caught.json")))

o = [T("design_head.md"), "## 3 Properties\n"]
o.append("Per property: what is decided, the rules with the number of obligations (instances) on the current tree, roots, and the mutants "
         "used to test it (bad ones all caught, benign ones quiet).\n")
for p in table.PROPS:
    if p["id"] not in props.REG:
        continue
    o.append("### %s %s\n" % (p["id"], p["title"]))
    o.append(p["statement"] + "\n")
    note = p["note"].replace(table.NOTE, "").replace(table.TRUST, "").strip()
    o.append("**Decided.** " + note + "\n")
    if p.get("technique"):
        o.append("Technique: %s.\n" % p["technique"])
    o.append("Why tests cannot: %s.\n" % p["why"])
    o.append("Anchors: " + "; ".join("%s (%s)" % (n, w) for n, w in p["mech"]) + ".\n")
    try:
        c = json.load(open(os.path.join(EV, p["id"] + ".json")))["coverage"]
    except FileNotFoundError:
        continue
    for r in c["rules"]:
        if r["obligations"]:
            o.append("- `%s` (%d): %s" % (r["rule"], r["obligations"], r["text"]))
    o.append("\n%d obligations over %d functions, %d blocks, %d path classes. Mutants: %d bad, %d benign.\n" % (
        c["obligations_total"], c["functions_analysed"], c["basic_blocks"], c["path_sensitive_nodes"], bad[p["id"]], ben[p["id"]]))
o.append("## 4 Defects found in openraft\n")
o.append("Repaired (each a separate `fix:` commit in /repo, the existing suite passes with it; the check reports it again on the unrepaired tree):\n")
for k in kf:
    if k["status"] == "fixed":
        o.append("- %s `%s`: %s" % (k["property"], k["key"], k["what"].split(" ", 3)[-1] if k["what"].startswith("fixed:") else k["what"]))
o.append("\nRecorded, not repaired:\n")
for k in kf:
    if k["status"] == "known":
        o.append("- %s `%s`: %s" % (k["property"], k["key"], k["what"]))
o.append("\n## 5 Planted bugs and mutants\n")
o.append("Seeded bugs (`seeded/`), each compiles, passes all stable tests, and has a demonstration that fails with it:\n")
o.append("| bug | property | needs | caught by |\n|---|---|---|---|")
for n, m in seeds.items():
    o.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], SB.get(n, "?")))
o.append("\n%d bad and %d benign mutants are kept in `tools/mutants.py` and run with `tools/mutate.py` (development only).\n" % (sum(bad.values()), sum(ben.values())))
o.append(T("design_tail.md"))
na = [p for p in table.PROPS if p["id"] not in props.REG]
o = "\n".join(o)
o = o.replace("@@NA@@", "\n".join("- %s %s: %s" % (p["id"], p["title"], p.get("na", "")) for p in na))
open(os.path.join(V, "DESIGN.md"), "w").write(o)
print(len(o), "bytes")
