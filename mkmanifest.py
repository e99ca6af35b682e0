#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
conf = json.load(open(os.path.join(here, "checks.json")))
tech = json.load(open(os.path.join(here, "techniques.json")))
checks = []
na = []
for p in props:
    i = p["id"]
    if i not in conf:
        na.append({"property": i, "reason": "not built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 run.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": tech[i][0],
        "level": "exploration",
        "level_note": tech[i][1] + " Bounded random search: it shows no violation among the generated cases, which evidence/%s.json counts. It trusts the reference models in harness/vt, the in-memory block store, go-merkledag, go-cid and go-multihash." % i,
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are property-based tests of the exported interface (harness/props), driven by run.py. No hooks in /repo are needed."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
