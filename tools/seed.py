#!/usr/bin/env python3
"""Build and confirm planted bugs (/verif/seeded/<id>/) in scratch copies.

  seed.py make SPEC.py [ID ...]    write seeded/<id>/ from a spec (BUGS list of dicts:
                                   id, property, needs, what, edits [(file, old, new)], demo)
  seed.py test [ID ...]            patch applies, touches original lines only, stable tests
                                   pass, demo 0 on unchanged / nonzero with the patch
  seed.py run  ID [CHECK ...]      run the checks (default: the bug's own) against the bug
"""
import importlib.util, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = "/verif"; S = V + "/seeded"; ORIG = "d90497a"

def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)

def scratch(tag):
    d = tempfile.mkdtemp(prefix="seed_%s_" % tag, dir="/tmp")
    sh(["cp", "-a", "/repo", d + "/repo"])
    return d

def make(spec, ids):
    m = importlib.util.module_from_spec(s := importlib.util.spec_from_file_location("spec", spec)); s.loader.exec_module(m)
    for b in m.BUGS:
        if ids and b["id"] not in ids: continue
        d = scratch(b["id"]); ok = True
        for f, old, new, *nth in b["edits"]:  # optional: which occurrence
            p = d + "/repo/torchmps/" + f; t = open(p).read()
            if nth and t.count(old) > nth[0]:
                h = t.split(old)
                open(p, "w").write(old.join(h[: nth[0] + 1]) + new + old.join(h[nth[0] + 1 :])); continue
            if t.count(old) != 1:
                print(b["id"], "edit matches", t.count(old), "times:", old[:60]); ok = False; continue
            open(p, "w").write(t.replace(old, new))
        if ok:
            os.makedirs(S + "/" + b["id"], exist_ok=True)
            diff = sh("git diff", cwd=d + "/repo").stdout
            open(S + "/%s/patch.diff" % b["id"], "w").write(diff)
            open(S + "/%s/demo.py" % b["id"], "w").write(b["demo"].lstrip("\n"))
            open(S + "/%s/demo.sh" % b["id"], "w").write(
                '#!/bin/bash\n# exit 0: the property holds on this input; nonzero: it is broken\n'
                'here=$(cd "$(dirname "$0")" && pwd)\n'
                'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 CUDA_VISIBLE_DEVICES=\n'
                'exec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]},
                      open(S + "/%s/meta.json" % b["id"], "w"), indent=1)
            print(b["id"], "written")
        shutil.rmtree(d)

def original(diff):
    """Every removed line must come from the original repository."""
    bad = []; removed = 0; f = None; n = 0
    blame = {}
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            blame[f] = sh(["git", "-C", "/repo", "blame", "-s", f]).stdout.splitlines()
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            removed += 1
            if not blame[f][n - 1].startswith("^" + ORIG): bad.append((f, n))
            n += 1
        elif l.startswith(" "): n += 1
    return removed, bad

def test1(i):
    out = []; d = scratch(i); r = d + "/repo"; p = S + "/%s/" % i
    try:
        removed, bad = original(open(p + "patch.diff").read())
        if not removed: out.append("no original line changed")
        if bad: out.append("changes added lines %s" % bad)
        lay = d + "/demo"; shutil.copytree(p, lay)
        for x in ("patch.diff", "meta.json"): os.remove(lay + "/" + x)
        a = sh(["bash", lay + "/demo.sh"], cwd=r, timeout=300)
        if a.returncode: out.append("demo on unchanged: %d %s" % (a.returncode, (a.stdout + a.stderr)[-300:]))
        g = sh(["git", "apply", p + "patch.diff"], cwd=r)
        if g.returncode: return i, out + ["does not apply " + g.stderr[:200]]
        b = sh(["bash", lay + "/demo.sh"], cwd=r, timeout=300)
        if not b.returncode: out.append("demo passes with the patch")
        elif "Assertion" not in b.stderr: out.append("NOTE demo dies: " + b.stderr[-200:])
        t = open("/opt/vp/test.sh").read().replace("/repo", r).replace("-n 8", "-n 4")
        open(d + "/t.sh", "w").write(t)
        sh(["bash", d + "/t.sh", d + "/o.json"], timeout=1500)
        base = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(d + "/o.json"))
        stable = set(base["stable"])
        passed = set(o["passed"])
        if stable - passed: out.append("tests fail: %s" % sorted(stable - passed)[:4])
        return i, out
    finally:
        shutil.rmtree(d)

def run1(a):
    i, checks = a
    d = scratch(i)
    try:
        sh(["git", "apply", S + "/%s/patch.diff" % i], cwd=d + "/repo")
        env = dict(os.environ, RTM_REPO=d + "/repo", RTM_OUT=d + "/out", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
        r = {}
        for c in checks:
            x = sh([V + "/bin/check", c], env=env, cwd=V)
            r[c] = (x.returncode, [l for l in x.stdout.splitlines() if "VIOLATION" in l][:1], (x.stdout + x.stderr)[-300:] if x.returncode not in (0, 1) else "")
        return i, r
    finally:
        shutil.rmtree(d)

def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make": return make(args[0], args[1:])
    if cmd == "test":
        ids = args or sorted(os.listdir(S))
        with ThreadPoolExecutor(4) as ex:
            for i, o in ex.map(test1, ids): print(i, "OK" if not [x for x in o if not x.startswith("NOTE")] else "BAD", *o, flush=True)
    if cmd == "run":
        i = args[0]; own = json.load(open(S + "/%s/meta.json" % i))["property"]
        cs = args[1:] or [own]
        if cs == ["all"]: cs = ["C%02d" % k for k in range(1, 37)]
        print(*run1((i, cs)))
    if cmd == "runall":
        ids = args or sorted(os.listdir(S))
        jobs = [(i, [json.load(open(S + "/%s/meta.json" % i))["property"]]) for i in ids]
        with ThreadPoolExecutor(4) as ex:
            for i, r in ex.map(run1, jobs):
                for c, (rc, v, e) in r.items(): print(i, c, {0: "MISSED", 1: "caught"}.get(rc, "BROKEN %s" % rc), e, flush=True)
    if cmd == "matrix":
        ids = args or sorted(os.listdir(S)); cs = ["C%02d" % k for k in range(1, 37)]
        with ThreadPoolExecutor(4) as ex:
            for i, r in ex.map(run1, [(i, cs) for i in ids]):
                print(i, "caught by", " ".join(c for c, x in r.items() if x[0] == 1), "| broken:", [c for c, x in r.items() if x[0] not in (0, 1)], flush=True)
main()
