#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and harnesses.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from harnesses import PROPS, NOT_APPLICABLE  # noqa: E402

props = [json.loads(x) for x in open(f"{VERIF}/properties.jsonl") if x.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection: seeded search over schedules and fault "
                         "sequences, " + PROPS[i].get("oracle", "reference-model oracle"),
            "level": "exploration",
            "level_note": PROPS[i].get("note", "Real code under a seeded scheduler; sampled, not exhaustive; "
                                               "violations replay exactly from the replay file."),
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 --version && g++ --version && ninja --version",
     "checks": checks, "not_applicable": na,
     "notes": "Every check builds its harness from /repo's working tree (no hooks in /repo are needed: "
              "the seams are link-time interposition and compiler instrumentation, see DESIGN.md)."}
json.dump(m, open(f"{VERIF}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
