#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 run.py setup", checks=[], not_applicable=[],
         notes="Harness in /verif/harness (Go module replacing the repository by /repo), driven by run.py. No hooks in /repo are needed.")
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
                                evidence_file="evidence/%s.json" % i, technique=c["technique"], level=c["level"], level_note=c["level_note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason="check not built yet"))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
