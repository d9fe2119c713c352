#!/usr/bin/env python3
"""Rewrites MANIFEST.json from props.py and properties.jsonl."""
import json, os
from props import PROPS
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
NA = {}
m = dict(version=1, setup_cmd="python3 check.py --build", checks=[], not_applicable=[],
  notes="Every check compiles /repo to WebAssembly, executes the harness symbolically with the wasmsym engine (Z3), replays counterexamples and sampled paths on a native build of the same code. No hooks in /repo.")
for p in props:
    if p["id"] in PROPS:
        m["checks"].append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}", evidence_file=f"evidence/{p['id']}.json",
            technique="symbolic execution of the contract's WebAssembly with an SMT solver (Z3), counterexamples replayed natively", level="model_checking",
            level_note="All feasible paths within the stated bounds, each assertion decided by the solver for every input on the path. Bounds: " + PROPS[p["id"]]["bounds"] + ". Trusts rustc's wasm backend, the engine and Z3."))
    else: m["not_applicable"].append(dict(property=p["id"], reason=NA[p["id"]]))
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
