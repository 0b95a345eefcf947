#!/usr/bin/env python3
"""Rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| id | property | needs |", "|---|---|---|"]
for m in sorted(root.glob("seeded/*/meta.json")):
    d = json.loads(m.read_text())
    rows.append("| %s | %s | %s |" % (m.parent.name, d["property"], " ".join(str(d["needs"]).split()).replace("|", "/")))
p = root / "DESIGN.md"
s = p.read_text()
s = re.sub(r"(<!-- seeds -->).*?(<!-- /seeds -->)", lambda k: k.group(1) + "\n\n" + "\n".join(rows) + "\n\n" + k.group(2), s, flags=re.S)
p.write_text(s)
