#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from checks/props.py and checks/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks.props import P
from checks.registry import CHECKS, NOT_APPLICABLE, HOOKS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        if p["id"] in CHECKS or p["id"] in NOT_APPLICABLE: f.write(json.dumps(p, ensure_ascii=False) + "\n")
ids = [p["id"] for p in P]; assert len(set(ids)) == len(ids)
m = dict(version=1, setup_cmd="python3 run.py build",
  checks=[dict(property=i, quick_cmd=f"python3 run.py check {i} --tier quick", thorough_cmd=f"python3 run.py check {i} --tier thorough",
    evidence_file=f"evidence/{i}.json", technique=CHECKS[i]["technique"], level=CHECKS[i]["level"], level_note=CHECKS[i]["note"]) for i in ids if i in CHECKS],
  not_applicable=[dict(property=i, reason=NOT_APPLICABLE[i]) for i in ids if i in NOT_APPLICABLE and i not in CHECKS],
  notes="Every check mirrors /repo/core/src, compiles the real classes against the in-process MPI of fw/fakempi and enumerates executions. See DESIGN.md.")
if HOOKS: m["hooks"] = HOOKS
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
for p in P: jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable;", len(P), "properties in source")
