#!/usr/bin/env python3
"""Write the table of planted bugs in DESIGN.md, from seeded/*/meta.json."""
import json
import pathlib
import re

ROOT = pathlib.Path(__file__).resolve().parent.parent
MISSED = {"B16-complement-sticky-bound", "B30-subgraph-connected", "B38-lanczos-negative"}  # at first
try:
    MISSED |= set(json.loads((ROOT / "tools/missed.json").read_text()))
except FileNotFoundError:
    pass
rows = ["| bug | property | what it breaks | needs | check |", "|---|---|---|---|---|"]
for p in sorted((ROOT / "seeded").glob("*/meta.json")):
    m = json.loads(p.read_text())
    name = p.parent.name
    rows.append("| %s | %s | %s | %s | %s |" % (name, m["property"], m["what_it_breaks"], m["needs"],
                                              m["property"] + (" (missed at first)" if name in MISSED else "")))
d = ROOT / "DESIGN.md"
s = d.read_text()
s = re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)", lambda k: k[1] + "\n".join(rows) + "\n" + k[2], s, flags=re.S)
d.write_text(s)
