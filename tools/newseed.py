#!/usr/bin/env python3
"""newseed.py NAME PROPERTY FEATURES "needs" "breaks"  < demo.rs : create seeded/NAME with demo.sh, demo.rs, meta.json"""
import sys, os, json
n, p, feat, needs, br = sys.argv[1:6]
d = f"/verif/seeded/{n}"; os.makedirs(d, exist_ok=True)
t = open("/tmp/plant/tpl/demo.sh").read().replace('"FEATURES"', ", ".join(f'"{f}"' for f in feat.split(",")))
open(d + "/demo.sh", "w").write(t); os.chmod(d + "/demo.sh", 0o755)
open(d + "/demo.rs", "w").write(sys.stdin.read())
json.dump({"property": p, "needs": needs, "what_it_breaks": br}, open(d + "/meta.json", "w"), indent=1)
