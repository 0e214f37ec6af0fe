#!/usr/bin/env python3
"""seeded_table.py [results.jsonl]: section 6 of DESIGN.md, the planted bugs and the check that catches each.
With results ({id, prop, rc} per line) the outcome is taken from there."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rc = {}
if len(sys.argv) > 1:
    rc = {d["id"]: d["rc"] for d in map(json.loads, open(sys.argv[1]))}
rows = []
for i in sorted(os.listdir(f"{here}/seeded")):
    m = json.load(open(f"{here}/seeded/{i}/meta.json"))
    caught = {None: "?", 1: m["property"]}.get(rc.get(i), "missed")
    rows.append(f"| `{i}` | {caught} | {' '.join(m['needs'].split())} |")
text = open(f"{here}/DESIGN.md").read()
mark = "| planted bug | caught by | needs |\n|---|---|---|\n"
if mark in text:
    text = text[: text.index(mark)] + mark + "\n".join(rows) + "\n"
    open(f"{here}/DESIGN.md", "w").write(text)
else:
    print("no table in DESIGN.md")
