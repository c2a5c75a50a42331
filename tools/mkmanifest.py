#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property with a module in harness/props."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, "harness", "props", p.lower() + ".py")):
        n = NOTES.get(p, {})
        checks.append(dict(
            property=p,
            quick_cmd="/opt/venv/bin/python check.py %s --tier quick" % p,
            thorough_cmd="/opt/venv/bin/python check.py %s --tier thorough" % p,
            evidence_file="evidence/%s.json" % p,
            technique=n.get("technique", "TLA+ specification checked with TLC; recorded behaviour of the code validated against it by TLC"),
            level="model_checking",
            level_note=n.get("note", "TLC judges every recorded behaviour of the real code against the specification; bounded to the inputs and histories enumerated and generated.")))
    else:
        na.append(dict(property=p, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
