#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import plan
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for i in ids:
    if i in plan.PLAN:
        c = plan.PLAN[i]
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py " + i, thorough_cmd="python3 tools/check.py " + i + " --thorough",
                           evidence_file="evidence/%s.json" % i, technique=c["technique"], level=c.get("level", "exploration"),
                           level_note=c["note"]))
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="cfg(undine_verif)", enable='RUSTFLAGS="--cfg undine_verif"', source_commits=["349bf05"]),
         checks=checks,
         not_applicable=[dict(property=i, reason="not built yet") for i in ids if i not in plan.PLAN],
         notes="tools/check.py ID builds /verif/harness against /repo with cargo --offline and runs it; see DESIGN.md")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
