#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from registry import REG
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in REG:
        R = REG[i]
        mods = ", ".join(sorted({m for m, _ in R.get("models", [])})) or "none"
        checks.append(dict(
            property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=R.get("technique", "TLA+ specification; TLC validates histories recorded from the real library against it"),
            level="model_checking",
            level_note=R.get("note", "Bounded: every recorded history (seeded random programs over the public API, values on an "
                             "exact grid) must be a behaviour of the specification in spec/. Design models checked exhaustively: %s. "
                             "Trusts TLC, the recorder in harness/ and numpy." % mods)))
    else:
        na.append(dict(property=i, reason=NA.get(i, "Machinery not built yet.")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         hooks=dict(guard="CZ_VERIF_UNUSED", enable="No hooks: the public API exposes the state that is observed.", source_commits=[]),
         notes="TLA+ with TLC. See DESIGN.md.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
