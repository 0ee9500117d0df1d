#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and check.py's table."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import check
checks = []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)["id"]
    m = check.PROPS[p]
    how = ("the model's orders of runs are carried out and their traces validated" if p == "C19"
           else "every history of the model is replayed in the real code and compared")
    checks.append({
        "property": p,
        "quick_cmd": f"VERIF_TIER=quick python3 check.py {p}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
        "technique": f"TLA+ specification, TLC on {m[0]} ({', '.join(m[1] + m[2])}); model histories replayed in the real code; recorded traces validated by TLC (LNTrace)",
        "level": "model_checking",
        "level_note": f"Exhaustive within the bounds of spec/{m[0]}.tla: TLC checks the specification against independent statements of the property, and {how}. "
                      f"Beyond the bounds {m[3][0]} (thorough {m[3][1]}) seeded random programs are recorded and validated by TLC. Trusts TLC, the harness's "
                      "observation through the public API, and the Unicode, dictionary and Decimal libraries the code builds on."})
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: everything is observed through the public API. Defects found and repaired are in known-findings.txt."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
