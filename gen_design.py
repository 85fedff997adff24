#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.body.md and seeded/*/meta.json."""
import json, glob, os
try:
    import design_more as M
except ImportError:
    M = None
late = getattr(M, "LATE", {})
rows = ["| planted bug | breaks | needs | caught by | first run |", "|---|---|---|---|---|"]
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d)); n = d.split("/")[1]
    c = getattr(M, "MISSED", {})
    rows.append(f"| {n} | {m['what_it_breaks']} | {m['needs']} | {'not caught: ' + c[n] if n in c else m['property']} | {'missed; ' + late[n] if n in late else 'yes'} |".replace("\n", " "))
s = open("DESIGN.body.md").read()
for k in ("RUSTGEN", "NA", "FINDINGS", "LOOPS"):
    s = s.replace(f"@@{k}@@", getattr(M, k, "").strip("\n"))
s = s.replace("@@SEEDS@@", "\n".join(rows))
open("DESIGN.md", "w").write(s)
