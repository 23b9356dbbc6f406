#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props_config.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props_config import PROPS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} --tier quick",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "technique": c.get("technique", "contracts on the extracted real functions, discharged by Verus/Z3; bounded executable contract for counterexamples"),
            "level": "proof",
            "level_note": c.get("note", "every obligation over the extracted source is discharged by the verifier on each run; bounded runs are reported separately and not counted as proved"),
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "not yet under contract: the machinery for this property is not built")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the checks extract the functions from /repo's sources and use its public API", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
