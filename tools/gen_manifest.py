#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 run.py setup", checks=[], not_applicable=[],
         notes="Every check builds /repo/src from the working tree into /verif/build (ignored by git), explores a bounded space exhaustively with forked workers, replays any counterexample alone before reporting it, and writes evidence/<id>.json. See DESIGN.md.")
for p in props:
    c = CHECKS.get(p["id"])
    if not c: m["not_applicable"].append(dict(property=p["id"], reason="check not built yet (work in progress)")); continue
    m["checks"].append(dict(property=p["id"], quick_cmd="python3 run.py check %s --tier quick" % p["id"], thorough_cmd="python3 run.py check %s --tier thorough" % p["id"],
        technique=c.get("technique", "bounded exhaustive exploration of the real code in lockstep with a reference model"), level=c.get("level", "model_checking"),
        level_note=c.get("note", "Exhaustive within the stated bounds: " + c["bounds"] + ". Trusts GMP, the compiler and the reference model in lib/ref.hpp.")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
