#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["what_it_breaks"].replace("|", "\\|"), d["needs"].replace("|", "\\|"))
        for m in sorted(glob.glob(V + "/seeded/*/meta.json")) for d in [json.load(open(m))]]
L = open(V + "/DESIGN.md").read().split("\n")
i = L.index("| planted bug | what it breaks | needs |") + 2
j = i
while j < len(L) and L[j].startswith("|"): j += 1
open(V + "/DESIGN.md", "w").write("\n".join(L[:i] + rows + L[j:]))
