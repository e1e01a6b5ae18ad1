#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules present in engine/checks and the property list."""
import json, os, sys, importlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "engine"))
NA = {
 "C32": "parsing and rendering live in the external crate rphtml; round-trip equality quantifies over all byte strings and is not decidable from this repository's source",
 "C34": "quantitative resource bound over runtime document depth and size; recursion over tree depth exists by design, and rustc gives no stack bound",
 "C35": "on the current tree nodes parsed by set_html keep their temporary document, which is dropped; stating which later lookups work depends on runtime ownership counts (see DESIGN.md)",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    f = os.path.join(HERE, "engine", "checks", pid.lower() + ".py")
    if os.path.exists(f):
        m = importlib.import_module("checks." + pid.lower())
        checks.append(dict(property=pid, quick_cmd="VERIF_TIER=quick python3 check.py " + pid,
                           thorough_cmd="VERIF_TIER=thorough python3 check.py " + pid,
                           evidence_file="evidence/%s.json" % pid, technique=m.TECHNIQUE, level="other", level_note=m.NOTE))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "no check built yet")))
man = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
           notes="Static analysis of rustc's MIR of /repo's working tree; no code of visdom is executed. See DESIGN.md.")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
