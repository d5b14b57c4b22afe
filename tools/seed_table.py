#!/usr/bin/env python3
"""Writes the table of planted changes into section 6 of DESIGN.md (between the two markers)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property (caught by its quick check) | needs | breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob(root + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda k: k[1] + "\n".join(rows) + "\n" + k[2], s, flags=re.S)
open(p, "w").write(s)
