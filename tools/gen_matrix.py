#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import collections
import json
import pathlib
import re

root = pathlib.Path(__file__).resolve().parent.parent
rows = collections.defaultdict(list)
for meta in sorted(root.glob("seeded/*/meta.json")):
    m = json.loads(meta.read_text())
    rows[m["property"]].append(f"| {m['property']} | {meta.parent.name} | {m['needs']} |")
table = "\n".join(
    ["| caught by | bug | needs |", "|---|---|---|"]
    + [r for p in sorted(rows) for r in rows[p]]
)
begin, end = "<!-- planted bugs -->", "<!-- end of planted bugs -->"
design = root / "DESIGN.md"
text = design.read_text()
text = re.sub(
    re.escape(begin) + ".*?" + re.escape(end),
    lambda _: f"{begin}\n{table}\n{end}",
    text,
    flags=re.S,
)
design.write_text(text)
print(sum(map(len, rows.values())), "planted bugs")
