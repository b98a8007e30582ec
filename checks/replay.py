#!/usr/bin/env python3
"""replay.py violation.json: runs the scenario of a reported violation again on /repo's working tree and validates it."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gridlib as gl
import units
import vlib

x = json.load(open(sys.argv[1]))
d = x["data"]
c = vlib.Check("replay")
unit = {u["name"]: u for u in vars(units).values() if isinstance(u, dict) and "driver" in u}
b = unit[d["build"]] if d["build"] in unit else gl.BUILDS[d["build"]]
so = c.build1([b])
h = dict(d["h"])
if "files" in d:
    if d["files"]:
        c.files([f.replace("DIR/", c.dir + "/") for f in d["files"]])
    h["files"] = {("x_" + k.split("_", 1)[1] if k.endswith(".nc") else k): v for k, v in h["files"].items()}
r = c.run(so[b["name"]], [(d["head"], d["scenario"].replace("DIR", c.dir))])[0]
ev = [e for e in r["ev"] if e["e"] not in gl.DROP or (e["e"] == "pin" and "module" in d)] + [{"e": "verdict", "v": r["verdict"][:200]}, {"e": "end"}]
m = d.get("module", "GridTrace")
rej = c.validate(m + ".tla", m + ".cfg", [{"h": h, "ev": ev}])
for e in ev:
    print(json.dumps(e))
print("REJECTED at event %d: %s" % (rej[0][1], json.dumps(ev[rej[0][1] - 1])) if rej else "accepted")
sys.exit(1 if rej else 0)
