"""Print a MIN line (45% of the observed counts) from evidence/<id>.json; with -w also write it."""
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = ("unusable", "rows_bounded")
for p in sys.argv[1:]:
    if p == "-w":
        continue
    ev = json.load(open(f"{V}/evidence/{p}.json"))["coverage"]["events_observed"]
    m = {k: int(v * (0.45 if v > 100 else 0.25)) for k, v in ev.items() if v >= 20 and k not in SKIP}
    lines, cur = [], "MIN = {"
    for k, v in m.items():
        item = json.dumps(k) + ": " + str(v) + ", "
        if len(cur) + len(item) > 116:
            lines.append(cur.rstrip())
            cur = "       "
        cur += item
    lines.append(cur.rstrip(", ") + "}")
    text = "\n".join(lines)
    print(text)
    if "-w" in sys.argv:
        f = f"{V}/checks/{p.lower()}.py"
        s = open(f).read()
        s = re.sub(r"^MIN = \{.*?\}", lambda _: text, s, count=1, flags=re.S | re.M)
        open(f, "w").write(s)
