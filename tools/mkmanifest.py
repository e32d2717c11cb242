#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, groups.py and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from groups import PROPS, TECH, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    if p["id"] not in PROPS: continue
    tech, note = TECH[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 run.py {p['id']}",
        evidence_file=f"evidence/{p['id']}.json", technique=tech, level="exploration", level_note=note))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
    notes="All checks are property-based tests over generated inputs/histories with explicit oracles; see DESIGN.md. No hooks were needed in /repo.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
missing = [p["id"] for p in props if p["id"] not in PROPS and p["id"] not in NOT_APPLICABLE]
print(len(checks), "checks;", "unclaimed:", missing)
