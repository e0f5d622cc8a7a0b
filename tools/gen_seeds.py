#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.setdefault(d["property"], []).append("`%s` (%s)" % (os.path.basename(os.path.dirname(m)), d["what_it_breaks"].rstrip(".")))
text = "\n".join("* **%s**: %s" % (p, "; ".join(rows[p])) for p in sorted(rows))
f = here + "/DESIGN.md"
t = open(f).read()
a, b = t.index("<!-- seeds -->") + 14, t.index("<!-- /seeds -->")
open(f, "w").write(t[:a] + "\n" + text + "\n" + t[b:])
