#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(os.path.join(H, "tools", "caught.json")))
rows = ["| change | property | needs | caught by its check |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {c.get(d, 'not run yet')} |")
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
s = s.replace("@@SEEDS@@", t) if "@@SEEDS@@" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
