#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the analyzer's registry (bin/ginkgoverif -list) and properties.jsonl."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
reg = {e["ID"]: e for e in json.loads(subprocess.check_output([V + "/bin/ginkgoverif", "-list"]))}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = {}
try:
    na = json.load(open(V + "/tools/na.json"))
except FileNotFoundError:
    pass
checks, nas = [], []
for p in props:
    i = p["id"]
    if i in reg:
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "technique": reg[i]["Technique"], "level": "other", "level_note": reg[i]["Note"]})
    else:
        nas.append({"property": i, "reason": na.get(i, "no sound static rule built for it yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": nas,
     "notes": "Static analysis of /repo's current source (go/ssa, vendored). No hooks in /repo. run.sh rebuilds the analyzer if needed; each check loads and type-checks the whole module on every run."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed", len(nas), "not claimed")
