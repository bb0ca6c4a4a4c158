"""Collects the run times in evidence/ into tools/wall.json (run after bin/all on an idle machine)."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
w = {}
for f in sorted(glob.glob(V + "/evidence/C*.json")):
    e = json.load(open(f))
    if e["tier"] == "quick":
        w[e["property"]] = max(1, round(e["wall_s"]))
json.dump(w, open(V + "/tools/wall.json", "w"), indent=0)
