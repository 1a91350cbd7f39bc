#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the rules, the manifest and the planted bugs."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
j = lambda *a: os.path.join(here, *a)
rules = {}
for f in glob.glob(j("checker", "rules_*.go")):
    for m in re.finditer(r'^\trule\("(\w+)", "((?:[^"\\]|\\.)*)"', open(f).read(), re.M):
        rules[m.group(1)] = (m.group(2), os.path.basename(f))
man = json.load(open(j("MANIFEST.json")))
checks = {c["property"]: c for c in man["checks"]}
props = [json.loads(l) for l in open(j("properties.jsonl"))]
seeds = {}
for d in sorted(os.listdir(j("seeded"))):
    m = json.load(open(j("seeded", d, "meta.json")))
    seeds.setdefault(m["property"], []).append((d, m))
exec(open(j("tools", "claims_why.py")).read())
out = [open(j("tools", "design_head.md")).read().rstrip(), "", "## Rules", ""]
for p in props:
    i = p["id"]
    if i not in checks:
        continue
    r, f = rules[i]
    c = checks[i]
    out += ["### %s %s" % (i, p["title"]), "",
            "*Specified and analysed* (`checker/%s`): %s" % (f, r), "",
            "*Bounds and oracle:* %s" % c["level_note"], "",
            "*Beyond tests:* %s" % why[i], "",
            "*Planted:* %s." % "; ".join("`%s` (%s)" % (d, m["needs"]) for d, m in seeds.get(i, [])), ""]
out += ["## Planted bugs and what catches them", "",
        "Each is caught by the check of the property it is listed under (above). Some are caught by others as well.",
        "Missed when they were written, and what was strengthened:", "", missed.strip(), "",
        "## Not applicable", ""]
for n in man["not_applicable"]:
    out.append("* **%s**: %s" % (n["property"], n["reason"]))
open(j("DESIGN.md"), "w").write("\n".join(out) + "\n")
