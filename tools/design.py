#!/usr/bin/env python3
"""writes DESIGN.md"""
import os, sys, json
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(V, "engine")]; sys.dont_write_bytecode = True
from properties import PROPERTIES, NOT_APPLICABLE
from design_props import D
import run
reg = run.load_props()
o = [open(os.path.join(HERE, "design_head.md")).read()]
for p in PROPERTIES:
    if p["id"] in reg:
        d = D[p["id"]]
        o.append(f"### {p['id']} {p['title']}\n\n*Technique*: {reg[p['id']][1]}. {' '.join(d[0].split())}\n")
        o.append(f"*Bounds*: {reg[p['id']][2]}" + (f" Not decided: {d[1]}." if d[1] else "") + f" *Why not tests*: {p['why_tests_cant']}.\n")
o.append("## Not applicable\n")
for p in PROPERTIES:
    if p["id"] not in reg:
        o.append(f"- **{p['id']} {p['title']}**: {NOT_APPLICABLE.get(p['id'], 'no check has been built for it yet')}.")
o.append("")
o.append(open(os.path.join(HERE, "design_tail.md")).read())
sd = os.path.join(V, "seeded")
o.append("## Planted bugs and the checks that catch them\n\n| id | property | needs |\n|---|---|---|")
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, "meta.json")))
    o.append(f"| {s} | {m['property']} | {m['needs']} |")
o.append("\nEach is caught by the check of its property (`selftest/all.py seeded` and `vcheck`) unless listed as missed above.")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o) + "\n")
