#!/usr/bin/env python3
"""Print the planted-bug table of DESIGN.md section 5 from seeded/*/meta.json (run by hand)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STAR = set("c23-dup-oom c25-swallow c16-chunks c07-affine-z c21-scale-memo c19-pop-msg c15-sk-twice c26-errno c10-fp6-opt c10-hex-chunk c21-count c20-lock-split c20-seq c22-info-stack c24-map-exit c18-filter-first".split())  # missed when first planted
rows = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); rows.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d["what_it_breaks"].strip().rstrip("."), d["needs"].strip().rstrip(".")))
print("| property | planted bug | what it breaks | needs |\n|---|---|---|---|")
for p in sorted(rows):
    for i, w, n in rows[p]: print(f"| {p} | {i}{'*' if i in STAR else ''} | {w.replace('|', '/')} | {n.replace('|', '/')} |")
