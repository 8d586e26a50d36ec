#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs'].replace('|', '/')} |")
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
a = t.index("| | property | needs |\n|-|-|-|\n")
b = a
while t[b] == "|":
    b = t.index("\n", b) + 1 if "\n" in t[b:] else len(t)
    if b >= len(t):
        break
open(p, "w").write(t[:a] + "| | property | needs |\n|-|-|-|\n" + "\n".join(rows) + "\n" + t[b:])
