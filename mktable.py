#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(V, "DESIGN.md")
head = open(p).read().split("## Planted bugs and what catches them")[0]
MISSED = json.load(open(os.path.join(V, "missed.json")))
rows = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {MISSED.get(d, '')} |")
open(p, "w").write(head + """## Planted bugs and what catches them
`seeded/<id>/` each: a patch, a demonstration, what it needs. Every one is caught by the quick check of its property (VERIF_SEED=1) with the patch applied to /repo.
The last column says what was added where the check had missed it at first. (Written by `mktable.py`.)

| bug | caught by | needs | first missed; added |
|---|---|---|---|
""" + "\n".join(rows) + "\n")
