#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: one check per property module in props/."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
TECH = {
 "C01": "shadow-model monitor over random operation histories + invariant oracle at every returned collection",
}
DEFAULT = "runtime monitor: independent reference-model oracle over randomized workloads on the real code"
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "props", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"./run.sh {i} quick", thorough_cmd=f"./run.sh {i} thorough",
                           technique=TECH.get(i, DEFAULT), level="exploration",
                           level_note="Held on the executions driven by this run (counts in the evidence file); nothing is claimed beyond them. "
                                      "The reference model in /verif and numpy/scipy/pandas are trusted."))
    else:
        na.append(dict(property=i, reason="check under construction"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo are needed: every monitor observes the public API at its boundary. See DESIGN.md.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
