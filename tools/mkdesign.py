#!/usr/bin/env python3
"""Assembles DESIGN.md: the hand-written parts (tools/design/*.md) plus, per property, the technique, bounds and rules the
analyzer itself declares (bin/ginkgoverif -list, tools/rules.json), the defects repaired and the planted bugs caught.
   tools/mkdesign.py -rules   refreshes tools/rules.json from /verif/evidence (after a run of every property)."""
import json, subprocess, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if "-rules" in sys.argv:
    rules = {}
    for f in sorted(glob.glob(V + "/evidence/*.json")):
        e = json.load(open(f))
        i = os.path.basename(f)[:-5]
        rules[i] = [[r["id"], r["rule"], r["obligations"]] for r in e["coverage"]["rules"]]
    json.dump(rules, open(V + "/tools/rules.json", "w"), indent=1)
reg = {e["ID"]: e for e in json.loads(subprocess.check_output([V + "/bin/ginkgoverif", "-list"]))}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
rules = json.load(open(V + "/tools/rules.json"))
known = json.load(open(V + "/known_findings.json"))
limits = {}
cur = None
for line in open(V + "/tools/design/limits.md"):
    if line.startswith("## "):
        cur = line[3:].strip(); limits[cur] = ""
    elif cur:
        limits[cur] += line
seeds = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); m["id"] = os.path.basename(os.path.dirname(f))
    seeds.setdefault(m["property"], []).append(m)
out = [open(V + "/tools/design/head.md").read().rstrip() + "\n"]
out.append("\n## 5. Property by property\n\nEach section: how it is decided, its bounds, the rules of the check (with the number of obligations on the\ncurrent tree, quick tier), what is assumed or left open, defects it led to, planted bugs it catches.\n")
for p in props:
    i = p["id"]
    out.append(f"\n### {i} — {p['title']}\n\n")
    out.append(f"*Decided by* {reg[i]['Technique']}.\n\n*Bounds.* {reg[i]['Note']}\n\n")
    for r in rules.get(i, []):
        out.append(f"- `{r[0]}` ({r[2]}): {r[1]}\n")
    if limits.get(i, "").strip():
        out.append("\n*Assumed or left open.* " + limits[i].strip() + "\n")
    fx = [k for k in known if k["property"] == i]
    for k in fx:
        out.append(f"\n*{k['status'].capitalize()}{' in ' + k['commit'] if k.get('commit') else ''}:* {k['what']}.\n")
    for s in seeds.get(i, []):
        out.append(f"\n*Planted* `{s['id']}`: {s['what_it_breaks']} (needs: {s['needs']}) — {s.get('verdict', 'caught')}.\n")
out.append("\n" + open(V + "/tools/design/tail.md").read())
open(V + "/DESIGN.md", "w").write("".join(out))
