#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md, between its two markers."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    cell = lambda s: " ".join(s.split()).replace("|", "/")
    rows.append(f"| {d.name} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} | {m.get('caught_by', m['property'])} |")
p = root / "DESIGN.md"
s = p.read_text()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
i, j = s.index(a) + len(a), s.index(b)
p.write_text(s[:i] + "\n".join(rows) + "\n" + s[j:])
