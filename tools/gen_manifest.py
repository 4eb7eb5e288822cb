#!/usr/bin/python3
"""Writes ../MANIFEST.json from checks.py and properties.jsonl."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/..")
from checks import CHECKS, NOT_APPLICABLE, NOTES  # noqa: E402

props = [json.loads(line) for line in open(HERE + "/../properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append({
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick python3 run.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {i}",
            "technique": CHECKS[i].get("technique", "bounded exhaustive exploration of the real code (stateless model "
                                       "checking) against a reference model"),
            "level": "model_checking",
            "level_note": CHECKS[i].get("note") or (
                "Holds on every execution of the real code within the stated bounds: " + p["quantifier"]["text"]
                + ". Says nothing beyond the bounds. Trusts the reference model in the harness, the compiler and the "
                  "explorer (which tools/selftest.py exercises)."),
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/selftest.py", "checks": checks, "not_applicable": na, "notes": NOTES}
json.dump(m, open(HERE + "/../MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "unclaimed")
