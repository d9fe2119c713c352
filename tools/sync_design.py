#!/usr/bin/env python3
"""Copies the bounds of props.py into DESIGN.md's property table and lists the planted bugs (seeded/*/meta.json and tools/catches.json)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from props import PROPS
t = open(f"{V}/DESIGN.md").read()
for k, p in PROPS.items():
    t, n = re.subn(rf"(?m)^(\| {k} \| .*?\*\*Bounds:\*\*) .*\. \|$", lambda m: f"{m.group(1)} {p['bounds']}. |", t)
    assert n == 1, k
t = t.split("\n## Planted bugs")[0].rstrip() + "\n"
c = json.load(open(f"{V}/tools/catches.json"))
t += "\n## Planted bugs\nEach compiles, passes the stable tests and has a demonstration; none is committed in /repo. The last column is the outcome of the property's quick check.\n\n| bug | property | what it breaks | needs | check |\n|---|---|---|---|---|\n"
for s in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    f = lambda x: str(x).replace("|", "/").replace("\n", " ")
    t += f"| {s} | {m['property']} | {f(m['what_it_breaks'])} | {f(m['needs'])} | {c.get(s, 'not run')} |\n"
t += "\n" + open(f"{V}/tools/planted_notes.md").read()
open(f"{V}/DESIGN.md", "w").write(t)
