#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from bin/stages.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "bin"))
from stages import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Explicit TLA+ specification. TLC explores the design exhaustively within the bounds given in DESIGN.md%s, and "
        "validates traces recorded from the code built from /repo against the same specification: conformance is "
        "established for the recorded cases (exhaustive families where stated, seeded random families otherwise), not "
        "proved for all. Trusted: TLC, the Go toolchain, the driver's projection of values.")
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "its check is still being built"})
        continue
    mods = []
    for s in c["stages"]:
        if s["module"] not in mods:
            mods.append(s["module"])
    has_model = any(s["kind"] == "model" for s in c["stages"])
    checks.append({"property": p["id"], "quick_cmd": "bin/check " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough bin/check " + p["id"],
                   "technique": "TLA+ specification with TLC: model checking and trace validation of the Go code (%s)" % ", ".join(mods),
                   "level": "model_checking",
                   "level_note": NOTE % ("" if has_model else " (here: the declarative definitions evaluated on the recorded cases)")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through the public API. bin/check ID runs one check; "
              "bin/check --replay FILE runs a recorded violation again. Defects repaired in /repo: known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
