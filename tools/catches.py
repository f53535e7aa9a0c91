#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/missed.txt."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {}
p = os.path.join(H, "tools", "missed.txt")
if os.path.exists(p):
    missed = dict(l.rstrip("\n").split(" ", 1) for l in open(p) if l.strip())
head = "### Planted bugs and what catches them\n"
t = open(os.path.join(H, "DESIGN.md")).read()
t = t[:t.index(head)] + head + "\nEach passes the 49 stable tests; the quick check named finds it (exit 1) unless said otherwise.\n\n| bug | check | what breaks | needs |\n|---|---|---|---|\n"
for m in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); i = m.split("/")[-2]
    t += "| %s | %s | %s | %s |\n" % (i, missed.get(i, d["property"]), d["what_it_breaks"], d["needs"])
open(os.path.join(H, "DESIGN.md"), "w").write(t)
