#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json.
An optional third column value is kept from the existing table (caught by)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
p = os.path.join(root, "DESIGN.md")
L = open(p).read().split("\n")
h = L.index("| id | property | needs | caught by |")
e = h + 2
old = {}
while e < len(L) and L[e].startswith("|"):
    c = [x.strip() for x in L[e].strip("|").split("|")]
    old[c[0]] = c[-1]
    e += 1
rows = []
for m in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    rows.append(f"| {i} | {d['property']} | {d['needs'].replace('|', '/')} | {old.get(i, d['property'])} |")
L[h + 2:e] = rows
open(p, "w").write("\n".join(L))
