#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
head, rest = s.split("\n## Planted bugs", 1)
tail = ""
if "\n## " in rest:
    rest, tail = rest.split("\n## ", 1)
    tail = "\n## " + tail
intro = rest[: rest.index("| id |")]
rows = ["| id | needs | caught by |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['needs']} | {m.get('caught_by', m['property'])} |")
open(p, "w").write(head + "\n## Planted bugs" + intro + "\n".join(rows) + "\n" + tail)
