#!/usr/bin/env python3
"""Run the checks on behaviour-preserving rewrites (refac_spec.py) in scratch copies.

  refac.py [ID ...]       stable tests and all checks on each rewrite
  refac.py -c C01,C02 ID  only these checks
"""
import json, os, shutil, sys, tempfile, subprocess
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/tools")
import refac_spec

def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)

def one(a):
    (name, edits), checks, tests = a
    d = tempfile.mkdtemp(prefix="refac_", dir="/tmp"); r = d + "/repo"
    try:
        sh(["cp", "-a", "/repo", r]); out = []
        for f, old, new in edits:
            p = r + "/torchmps/" + f; t = open(p).read()
            if old not in t: out.append("edit does not match: " + old[:60])
            open(p, "w").write(t.replace(old, new))
        if tests:
            t = open("/opt/vp/test.sh").read().replace("/repo", r).replace("-n 8", "-n 4")
            open(d + "/t.sh", "w").write(t); sh(["bash", d + "/t.sh", d + "/o.json"])
            miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(d + "/o.json"))["passed"])
            if miss: out.append("tests fail: %s" % sorted(miss)[:3])
        env = dict(os.environ, RTM_REPO=r, RTM_OUT=d + "/out", VERIF_TIER="quick"); env.setdefault("VERIF_SEED", "1")
        for c in checks:
            x = sh([V + "/bin/check", c], env=env, cwd=V)
            if x.returncode: out.append("\n  %s rc %d: %s" % (c, x.returncode, (x.stdout + x.stderr)[-600:]))
        return name, out
    finally:
        shutil.rmtree(d)

args = sys.argv[1:]; checks = ["C%02d" % k for k in range(1, 37)]; tests = True
if args[:1] == ["-c"]: checks = args[1].split(","); args = args[2:]; tests = False
with ThreadPoolExecutor(int(os.environ.get("PAR", "3"))) as ex:
    for n, o in ex.map(one, [(r, checks, tests) for r in refac_spec.R if not args or r[0] in args]):
        print(n, "quiet" if not o else "ALARM", *o, flush=True)
