#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        s = CHECKS[p]
        m["checks"].append(dict(
            property=p, quick_cmd="python3 run.py %s" % p, thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % p,
            evidence_file="evidence/%s.json" % p, technique=s["technique"], level=s.get("level", "exploration"),
            level_note=s["level_note"]))
    else:
        m["not_applicable"].append(dict(property=p, reason=NOT_APPLICABLE.get(p, "check not built yet")))
m["notes"] = ("run.py builds each harness from /repo's working tree (VERIF_REPO overrides the path) with clang++-18 and "
              "runs its generated cases in 8 workers. No hooks in /repo are needed.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
