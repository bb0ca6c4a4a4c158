"""Lists event minima which are close to what was observed in the last run of each check."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, "/repo")
for k in range(1, 60):
    f = os.path.join(V, "evidence", f"C{k:02d}.json")
    if not os.path.exists(f) or not os.path.exists(os.path.join(V, "checks", f"c{k:02d}.py")):
        continue
    ev = json.load(open(f))
    if ev["tier"] != "quick":
        continue
    m = importlib.import_module(f"checks.c{k:02d}")
    for e, v in (m.MIN or {}).items():
        got = ev["coverage"]["events_observed"].get(e, 0)
        if v > 0.55 * got:
            print(f"C{k:02d} {e}: min {v} observed {got}")
    un = [e for e in ev["coverage"]["events_observed"] if e not in m.MIN]
    print(f"C{k:02d} wall {ev['wall_s']} no minimum:", un) if un else print(f"C{k:02d} wall {ev['wall_s']}")
