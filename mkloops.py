#!/usr/bin/env python3
"""write loops.json from the evidence of runs over a tree on which everything is proved: the loops the contracts were written for"""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
out = {}
for f in sorted(glob.glob(os.path.join(HERE, "evidence", "C*.json"))):
    e = json.load(open(f))
    t = {t["target"]: t["loops_met"] for t in e["coverage"].get("targets", []) if t["status"] == "proved"}
    if t:
        out[e["property"]] = t
with open(os.path.join(HERE, "loops.json"), "w") as f:
    json.dump(out, f, indent=1, sort_keys=True)
    f.write("\n")
