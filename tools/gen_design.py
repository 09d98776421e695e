#!/usr/bin/env python3
"""DESIGN.md from DESIGN.in.md, the manifest and the seeds."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
na = "\n".join("* **%s**: %s" % (n["property"], n["reason"]) for n in json.load(open(V + "/MANIFEST.json"))["not_applicable"]) or "(none)"
rows = ["| bug | property | what it needs | caught by | first run |", "|---|---|---|---|---|"]
by = json.load(open(V + "/tools/dev/caught.json"))
for d in sorted(glob.glob(V + "/seeded/*")):
    n = os.path.basename(d)
    m = json.load(open(d + "/meta.json"))
    c = by.get(n, ["not run", "?"])
    rows.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "\\|"), c[0], c[1]))
t = open(V + "/tools/DESIGN.in.md").read().replace("@NA@", na).replace("@SEEDS@", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(t)
