#!/usr/bin/env python3
"""Mutation analysis of the checks: every mutant of the library (one syntactic change) is run against a
few cases of every check.

  mutate.py list                      number of mutants per file
  mutate.py run OUT [--cases K] [--jobs J] [--files a,b] [--full] [--only id,id]
                                      OUT gets one JSON line per mutant
  mutate.py show ID                   the mutant as a diff
"""
import ast, copy, difflib, json, os, subprocess, sys, tempfile, shutil, random
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/torchmps/"
FILES = ["mps_base.py", "prob_mps.py", "embeddings.py", "utils2.py", "utils.py", "contractables.py", "torchmps.py"]
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult],
       ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult]}
DROP = {"conj", "clone", "contiguous", "detach", "abs", "t", "transpose", "squeeze", "unsqueeze", "to", "log", "double",
        "expand", "expand_as", "diag", "mean", "float", "long", "copy", "sum", "clamp", "real"}


def sites(tree):
    """Yield (line, description, function applying the mutation to a node found by its path)"""
    out = []

    def visit(node, path):
        for field, val in ast.iter_fields(node):
            if isinstance(val, list):
                for i, x in enumerate(val):
                    if isinstance(x, ast.AST):
                        child(node, field, i, x, path + [(field, i)])
            elif isinstance(val, ast.AST):
                child(node, field, None, val, path + [(field, None)])

    def add(node, path, desc, new):
        out.append((getattr(node, "lineno", 0), desc, list(path), new))

    def child(parent, field, i, n, path):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            return  # docstring
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Raise):
            add(n, path, "no raise", ast.Pass())
            return
        if isinstance(n, ast.Assert):
            add(n, path, "no assert", ast.Pass())
            return
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete)):
            add(n, path, "no statement", ast.Pass())
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, path, "no assignment", ast.Pass())
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and any(
                isinstance(x, ast.Name) and x.id == n.targets[0].id for x in ast.walk(n.value)):
            add(n, path, "no reassignment", ast.Pass())
        if isinstance(n, ast.If):
            add(n, path, "if not", ast.If(ast.UnaryOp(ast.Not(), n.test), n.body, n.orelse))
            add(n, path, "if True", ast.If(ast.Constant(True), n.body, n.orelse))
            add(n, path, "if False", ast.If(ast.Constant(False), n.body, n.orelse))
        if isinstance(n, ast.IfExp):
            add(n, path, "body", n.body)
            add(n, path, "orelse", n.orelse)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, path, o.__name__, ast.Compare(n.left, [o()], n.comparators))
        if isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                add(n, path, o.__name__, ast.BinOp(n.left, o(), n.right))
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                add(n, path, "left operand only", n.left)
            if isinstance(n.op, ast.MatMult):
                add(n, path, "swapped", ast.BinOp(n.right, ast.MatMult(), n.left))
        if isinstance(n, ast.UnaryOp):
            add(n, path, "operand", n.operand)
        if isinstance(n, ast.BoolOp):
            add(n, path, "other op", ast.BoolOp(ast.And() if isinstance(n.op, ast.Or) else ast.Or(), n.values))
            for k in range(len(n.values)):
                rest = n.values[:k] + n.values[k + 1:]
                add(n, path, "without operand %d" % k, rest[0] if len(rest) == 1 else ast.BoolOp(n.op, rest))
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(n, path, str(not v), ast.Constant(not v))
            elif isinstance(v, int):
                for w in ({0: [1], 1: [0, 2], 2: [1, 3]}.get(v, [v + 1, v - 1])):
                    add(n, path, str(w), ast.Constant(w))
            elif isinstance(v, float):
                add(n, path, str(v * 3), ast.Constant(v * 3))
            elif isinstance(v, complex):
                add(n, path, "half", ast.Constant(v / 2))
            elif isinstance(v, str) and "->" in v:
                a, b = v.split("->")
                for x, y in (("l", "r"), ("i", "j"), ("e", "d"), ("p", "l"), ("r", "q")):
                    if x in b and y in b:
                        nb = b.replace(x, "#").replace(y, x).replace("#", y)
                        add(n, path, a + "->" + nb, ast.Constant(a + "->" + nb))
                parts = a.split(",")
                for k, q in enumerate(parts):
                    for x, y in (("l", "r"), ("i", "j"), ("l", "u"), ("u", "r"), ("d", "e"), ("l", "p"), ("r", "q")):
                        if x in q and y in q:
                            nq = q.replace(x, "#").replace(y, x).replace("#", y)
                            na = ",".join(parts[:k] + [nq] + parts[k + 1:])
                            add(n, path, na + "->" + b, ast.Constant(na + "->" + b))
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in DROP and not (
                    isinstance(n.func.value, ast.Name) and n.func.value.id in ("torch", "np")):
                add(n, path, "without ." + n.func.attr, n.func.value)
            for k, kw in enumerate(n.keywords):
                add(n, path, "without keyword %s" % kw.arg, ast.Call(n.func, n.args, n.keywords[:k] + n.keywords[k + 1:]))
            if len(n.args) == 2:
                add(n, path, "swapped arguments", ast.Call(n.func, n.args[::-1], n.keywords))
        if isinstance(n, ast.Attribute) and n.attr in ("real", "imag"):
            add(n, path, "without ." + n.attr, n.value)
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                add(n, path, "no lower", ast.Slice(None, n.upper, n.step))
            if n.upper is not None:
                add(n, path, "no upper", ast.Slice(n.lower, None, n.step))
            if n.step is not None:
                add(n, path, "no step", ast.Slice(n.lower, n.upper, None))
        if isinstance(n, ast.With):
            add(n, path, "without with", ast.If(ast.Constant(True), n.body, []))
        if isinstance(n, ast.FunctionDef) and n.decorator_list:
            m = copy.copy(n)
            m.decorator_list = []
            add(n, path, "undecorated", m)
        if isinstance(n, ast.Continue):
            add(n, path, "pass", ast.Pass())
        if isinstance(n, ast.Break):
            add(n, path, "pass", ast.Pass())
        visit(n, path)

    visit(tree, [])
    return out


def put(tree, path, new):
    tree = copy.deepcopy(tree)
    node = tree
    for f, i in path[:-1]:
        node = getattr(node, f) if i is None else getattr(node, f)[i]
    f, i = path[-1]
    if i is None:
        setattr(node, f, copy.deepcopy(new))
    else:
        getattr(node, f)[i] = copy.deepcopy(new)
    return ast.fix_missing_locations(tree)


def mutants(files=FILES):
    for f in files:
        text = open(SRC + f).read()
        tree = ast.parse(text)
        base = ast.unparse(tree)
        seen = {base}
        for k, (line, desc, path, new) in enumerate(sites(tree)):
            try:
                code = ast.unparse(put(tree, path, new))
                compile(code, f, "exec")
            except Exception:
                continue
            if code in seen:
                continue
            seen.add(code)
            yield {"id": f"{f}:{line}:{k}", "file": f, "line": line, "desc": desc, "code": code, "base": base}


ALL = sorted(f[:-3].upper() for f in os.listdir(V + "/checks") if f[0] == "c")
DRIVER = r'''
import sys, os, json, importlib, time
sys.path.insert(0, os.environ["RTM_REPO"]); sys.path.insert(0, "%s")
import warnings; warnings.simplefilter("ignore")
K = int(sys.argv[1]); t0 = time.time()
try:
    import torch; torch.set_num_threads(1)
    from rtm import core
    core.check_import()
    import resource; resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    order = sys.argv[2].split(",")
    mods = [(p, importlib.import_module("checks." + p.lower())) for p in order]
except BaseException as e:
    print(json.dumps({"killed": "import", "msg": repr(e)[:200]})); sys.exit()
errs = []
for lo, hi in ((0, 4), (4, K)):
    for p, m in mods:
        for i in range(lo, hi):
            try:
                c = json.loads(json.dumps(m.gen(core.case_rng(1, p, i), "quick", i)))
            except Exception as e:
                errs.append((p, i, "gen " + repr(e)[:200])); continue
            v, msg = core.run_case(m, c, core.Obs())
            if v == "violation":
                print(json.dumps({"killed": p, "case": i, "msg": msg[:200], "t": time.time() - t0})); sys.exit()
            if v == "error": errs.append((p, i, msg[-200:]))
print(json.dumps({"killed": None, "errors": errs[:3], "t": time.time() - t0}))
''' % V


def run_one(a):
    m, K, full = a
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        os.makedirs(d + "/repo")
        shutil.copytree("/repo/torchmps", d + "/repo/torchmps", ignore=shutil.ignore_patterns("__pycache__", "tests"))
        open(d + "/repo/torchmps/" + m["file"], "w").write(m["code"])
        env = dict(os.environ, RTM_REPO=d + "/repo", RTM_OUT=d + "/out", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
                   VERIF_SEED="1", VERIF_TIER="quick")
        checks = [c for c in ALL if full or c != "C30"]  # (C30 takes long and needs its own environment)
        first = {"mps_base.py": "C05 C27 C28 C06 C02 C21", "prob_mps.py": "C01 C02 C32 C24 C03 C21", "embeddings.py": "C16 C32 C17",
                 "utils2.py": "C23 C05 C02", "utils.py": "C14 C25 C21", "contractables.py": "C26 C31 C04 C07",
                 "torchmps.py": "C07 C32 C31 C08 C11 C12 C18 C24 C22 C19"}[m["file"]].split()
        order = first + [c for c in checks if c not in first]
        rec = {k: m[k] for k in ("id", "file", "line", "desc")}
        if not full:
            try:
                x = subprocess.run(["/opt/venv/bin/python", "-c", DRIVER, str(K), ",".join(order)], env=env, cwd=V,
                                   capture_output=True, text=True, timeout=600)
                rec.update(json.loads(x.stdout.strip().splitlines()[-1]) if x.stdout.strip() else {"killed": "crash", "msg": x.stderr[-200:]})
            except subprocess.TimeoutExpired:
                rec["killed"] = "timeout"
        else:
            rec["killed"], rec["broken"] = None, []
            for c in (first if full == "first" else order):
                x = subprocess.run([V + "/bin/check", c], env=env, cwd=V, capture_output=True, text=True)
                if x.returncode == 1:
                    rec["killed"] = c
                    rec["msg"] = x.stdout[:200]
                    break
                if x.returncode:
                    rec["broken"].append((c, (x.stdout + x.stderr)[-300:]))
        return rec
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    opt = lambda n, d: a[a.index(n) + 1] if n in a else d
    files = opt("--files", ",".join(FILES)).split(",")
    if a[0] == "list":
        from collections import Counter
        print(Counter(m["file"] for m in mutants(files)))
    elif a[0] == "show":
        for m in mutants([a[1].split(":")[0]]):
            if m["id"] == a[1]:
                print("".join(difflib.unified_diff(m["base"].splitlines(1), m["code"].splitlines(1), n=3)))
    elif a[0] == "run":
        only = set(opt("--only", "").split(",")) - {""}
        if "--survivors" in a:
            only = {json.loads(l)["id"] for l in open(opt("--survivors", "")) if not json.loads(l)["killed"]}
        done = {json.loads(l)["id"] for l in open(a[1])} if os.path.exists(a[1]) else set()
        ms = [m for m in mutants(files) if (not only or m["id"] in only) and m["id"] not in done]
        random.Random(0).shuffle(ms)
        with ThreadPoolExecutor(int(opt("--jobs", "6"))) as ex, open(a[1], "a") as out:
            futs = [ex.submit(run_one, (m, int(opt("--cases", "30")), "first" if "--first" in a else "--full" in a)) for m in ms[: int(opt("--sample", "100000"))]]
            for r in (f.result() for f in as_completed(futs)):
                out.write(json.dumps(r) + "\n")
                out.flush()


main()
