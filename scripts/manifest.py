#!/usr/bin/env python3
"""writes MANIFEST.json for the properties which have a check in the analyzer"""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
claimed = {}
for fn in sorted(os.listdir(here + "/analyzer")):
    if fn.endswith(".go"):
        for m in re.finditer(r'checks\["(C\d+)"\]', open(here + "/analyzer/" + fn).read()):
            claimed[m.group(1)] = fn
meta = json.load(open(here + "/scripts/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed and i not in meta.get("na", {}):
        checks.append({
            "property": i,
            "quick_cmd": "bash run.sh " + i,
            "thorough_cmd": "bash run.sh " + i,
            "technique": meta["technique"].get(i, "static analysis: interprocedural data-flow over SSA"),
            "level": "other",
            "level_note": meta["note"].get(i, "Decides the structural conditions listed in DESIGN.md on every path of the current source; trusts the type checker, the SSA construction and the documented behaviour of the libraries called."),
        })
    else:
        na.append({"property": i, "reason": meta.get("na", {}).get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Static analysis of /repo's source by /verif/analyzer (Go, go/packages + SSA, vendored). No hooks in /repo."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
