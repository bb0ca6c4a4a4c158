"""C34: runs are reproducible from the torch seed, and only from it."""
import hashlib
import json
import os
import random
import subprocess
import sys
import threading

import numpy as np
import torch

from rtm import gen as G
from rtm import mon, refs
from rtm.core import REPO, VERIF, fail, need

CASES = {"quick": 600, "thorough": 8000}
CHUNK = 4
RULE = ("a random program (models of every class, initializers and perceptron embeddings built one after the other, then "
        "evaluations, training steps, merge-state changes, gradient resets and state-dictionary round trips on data drawn "
        "from the torch generator) is run twice from one torch seed; the second run has other NumPy and Python seeds and "
        "unrelated library work (other models of the same and other sizes, data helpers, failing calls, threads, garbage) "
        "between its steps, or happens in a process with another hash seed; initial tensors and generator states must be "
        "equal bit by bit, later values up to rounding; a run from another seed, and a second object built the same way, "
        "must differ in every random tensor; non-trivial with at least three objects and two steps")
MIN = {"generator_states": 2065, "initial_tensors": 3332, "later_values": 1353, "other_models": 622,
       "other_seed": 1476, "programs": 270, "successive": 325}
KINDS = ["prob", "prob", "mps", "ada", "ti", "near_eye", "normal", "mlp", "phases", "helper"]


def gen(rng, tier, idx):
    objs = []
    for _ in range(G.ri(rng, 2, 5)):
        k = G.pick(rng, KINDS)
        o = {"kind": k}
        if k == "prob":
            o["spec"] = G.prob_spec(rng, nmax=6, emb=False)
            o["spec"]["n"] = max(1, o["spec"]["n"])
            o["spec"]["inp"] = G.pick(rng, ["sym", "vec"])
        elif k in ("mps", "ada"):
            o["spec"] = G.mps_spec(rng, adaptive=k == "ada")
            o["spec"]["thresh"] = G.pick(rng, [2, 3, 5])
            o["std"] = G.pick(rng, [0.02, 0.1, 0.3])
        elif k == "ti":
            o["spec"] = G.ti_spec(rng)
            o["std"] = G.pick(rng, [0.02, 0.1, 0.3])
        else:
            o.update(d=G.ri(rng, 1, 4), D=G.ri(rng, 1, 5), n=G.ri(rng, 1, 4), cplx=bool(rng.random() < 0.5), h=G.ri(rng, 1, 6),
                     layers=G.ri(rng, 1, 3))
        objs.append(o)
        if rng.random() < 0.35:
            objs.append(json.loads(json.dumps(o)))
    steps = [[G.ri(rng, 0, len(objs) - 1), G.pick(rng, ["eval", "eval", "train", "train", "sd", "zero"])] for _ in range(G.ri(rng, 2, 8))]
    return {"objs": objs, "steps": steps, "seed": G.rs(rng), "other": G.rs(rng), "process": idx % 40 == 7,
            "noise": [G.pick(rng, NOISE) for _ in range(G.ri(rng, 2, 6))], "opt": G.pick(rng, ["sgd", "adam"])}


NOISE = ["seeds", "twin", "other", "helpers", "fail", "thread", "garbage", "batch"]


# ------------------------------------------------------------------ the program


def construct(o):
    import torchmps
    from torchmps import embeddings as E
    from torchmps import mps_base as B
    from torchmps import utils2 as U2

    k = o["kind"]
    s = o.get("spec")
    if k == "prob":
        kw = dict(complex_params=s["cplx"], use_bias=s["bias"], init_method=s["init"])
        m = torchmps.ProbMPS(s["n"], s["d"], s["D"], **kw) if s["kind"] == "fixed" else torchmps.ProbUnifMPS(s["d"], s["D"], **kw)
        return m
    if k in ("mps", "ada"):
        kw = {}
        if s["path"] is not None:
            kw["path"] = list(s["path"])
        if k == "ada":
            kw.update(adaptive_mode=True, cutoff=s["cutoff"], merge_threshold=s["thresh"])
        m = torchmps.MPS(s["n"], s["o"], s["D"], feature_dim=s["d"], periodic_bc=s["pbc"], parallel_eval=s["par"],
                         label_site=s["label"], use_bias=s["bias"], init_std=o["std"], **kw)
        return m.double() if s["dtype"] == "f64" else m
    if k == "ti":
        m = torchmps.TI_MPS(s["o"], s["D"], feature_dim=s["d"], parallel_eval=s["par"], fixed_ends=s["fixed_ends"],
                            use_bias=s["bias"], fixed_bias=s["fixed_bias"], init_std=o["std"])
        return m.double() if s["dtype"] == "f64" else m
    if k == "helper":
        # the data and shape helpers take what they need from the generator and leave it going on from there
        from torchmps import utils as U

        x, y = torch.arange(12.0).reshape(6, 2), torch.arange(6.0)
        a, b = U.joint_shuffle(x, y)
        perm = b.argsort()
        need(torch.equal(a[perm], x) and torch.equal(b[perm], y), "joint_shuffle does not shuffle jointly")
        U.onehot(torch.arange(3), 4)
        U.svd_flex(torch.eye(3), "lr->lu,ur")
        if o["layers"] == 1:
            U.load_HV_data(o["n"] + 1)
        return b.float() if o["h"] > 3 else torch.empty(0)
    if k == "near_eye":
        return B.near_eye_init((o["n"], o["d"], o["D"], o["D"]), is_complex=o["cplx"], noise=0.1)
    if k == "normal":
        return B.normal_init((o["d"], o["D"], o["D"]), is_complex=o["cplx"])
    if k == "mlp":
        return E.init_mlp_embed(o["d"], o["layers"], [o["h"]] * (o["layers"] - 1))
    return U2.phaseify(torch.ones(o["n"], o["D"])) if hasattr(U2, "phaseify") else torch.ones(1)


def tensors(x):
    """Named tensors of an object"""
    if isinstance(x, torch.Tensor):
        return {"": x}
    return dict(x.state_dict())


def data(o, batch):
    """Input drawn from the torch generator"""
    s = o.get("spec")
    k = o["kind"]
    if k == "prob":
        if s["inp"] == "sym":
            return torch.randint(s["d"], (batch, s["n"]))
        return torch.randn(batch, s["n"], s["d"])
    if k == "mlp":
        return torch.rand(batch, 3)
    n = 3 if k == "ti" else s.get("width", s["n"])
    return torch.rand(batch, n, s["d"]).to(G.F[s["dtype"]])


def outcome(f):
    try:
        return f()
    except RuntimeError as e:
        if "cutoff" in str(e):
            return "cutoff too large"
        raise


def program(c, seed, between=lambda: None):
    """Runs the program; returns the log: initial contents, generator states, later values."""
    torch.manual_seed(seed)
    objs, first, rngs, later, opts = [], [], [], [], {}
    for o in c["objs"]:
        x = construct(o)
        objs.append(x)
        first.append({k: mon.bits(v) for k, v in tensors(x).items()})
        rngs.append(torch.get_rng_state().numpy().tobytes())
        between()
    for i, op in c["steps"]:
        o, x = c["objs"][i], objs[i]
        if isinstance(x, torch.Tensor):
            continue
        if op == "eval":
            t = data(o, 3)
            with torch.no_grad():
                later.append(outcome(lambda: x(t).clone()))
        elif op == "train":
            opt = opts.get(i)
            if opt is None:
                ps = list(x.parameters())
                opt = opts[i] = torch.optim.SGD(ps, lr=0.02) if c["opt"] == "sgd" else torch.optim.Adam(ps, lr=0.01)
            for _ in range(2):
                t = data(o, 2)
                opt.zero_grad()

                def step():
                    y = x(t)
                    loss = -y.mean() if o["kind"] == "prob" else (y.abs() ** 2).mean()
                    later.append(loss.detach().clone())
                    if torch.isfinite(loss):
                        if loss.requires_grad:
                            loss.backward()
                        torch.nn.utils.clip_grad_norm_([p for p in x.parameters() if p.grad is not None], 1.0)
                        opt.step()
                        return [p.detach().clone() for p in x.parameters()]
                    return "no step"

                later.append(outcome(step))
        elif op == "sd":
            x.load_state_dict({k: v.clone() for k, v in x.state_dict().items()})
        elif op == "zero":
            x.zero_grad()
        rngs.append(torch.get_rng_state().numpy().tobytes())
        between()
    return objs, first, rngs, later


def disturb(c, rng):
    """Returns a function doing unrelated library work which leaves the torch generator as it was."""
    from torchmps import utils as U

    count = [0]

    def work(what):
        if what == "seeds":
            np.random.seed(int(rng.integers(1, 2**31)))
            random.seed(int(rng.integers(1, 2**31)))
        elif what in ("twin", "other"):
            o = c["objs"][int(rng.integers(len(c["objs"])))]
            if what == "other" and "spec" in o:
                o = dict(o, spec=dict(o["spec"], D=o["spec"]["D"] + 1))
            x = construct(o)
            if not isinstance(x, torch.Tensor):
                for b in (1, 2):
                    outcome(lambda: (x(data(o, b)).abs() ** 2).sum().backward() if list(x.parameters()) else x(data(o, b)))
        elif what == "helpers":
            U.joint_shuffle(torch.arange(12.0).reshape(6, 2), torch.arange(6.0))
        elif what == "fail":
            o = c["objs"][int(rng.integers(len(c["objs"])))]
            x = construct(o)
            if not isinstance(x, torch.Tensor):
                try:
                    x(torch.zeros(2, 97, 5, 3))
                except Exception:
                    pass
        elif what == "garbage":
            [torch.rand(int(k)) for k in rng.integers(1, 4000, size=20)]
        elif what == "batch":
            for o in c["objs"]:
                if o["kind"] not in ("near_eye", "normal", "phases", "helper"):
                    x = construct(o)
                    outcome(lambda: x(data(o, 7)))
                    break

    def between():
        count[0] += 1
        state = torch.get_rng_state()
        for what in c["noise"]:
            if rng.random() < 0.5:
                if what == "thread":
                    t = threading.Thread(target=work, args=("twin",))
                    t.start()
                    t.join()
                else:
                    work(what)
        torch.set_rng_state(state)

    return between


def digest(x):
    return hashlib.md5(repr(x).encode()).hexdigest()


def close(a, b, what):
    if isinstance(a, str) or isinstance(b, str):
        need(type(a) is type(b) and a == b, what)
        return
    if isinstance(a, list):
        need(isinstance(b, list) and len(a) == len(b), what)
        for x, y in zip(a, b):
            close(x, y, what)
        return
    need(a.shape == b.shape and a.dtype == b.dtype, what)
    x, y = refs.wide(a), refs.wide(b)
    tol = 3e-3 if a.dtype in (torch.float32, torch.complex64) else 1e-8
    ok = (np.abs(x - y) <= tol * (np.abs(x) + np.abs(x[np.isfinite(x)]).max(initial=1e-3))) | (x == y) | (np.isnan(x) & np.isnan(y))
    need(ok.all(), what, first=x, second=y)


def compare(a, b, what, obs):
    for k, (x, y) in enumerate(zip(a[1], b[1])):
        need(x == y, f"{what}: initial tensors differ", object=k, names=mon.diff(x, y))
        obs.hit("initial_tensors", len(x))
    need(a[2] == b[2], f"{what}: the program took other numbers from the generator",
         step=next(i for i, (x, y) in enumerate(zip(a[2], b[2])) if x != y) if a[2] != b[2] else None)
    obs.hit("generator_states", len(a[2]))
    need(len(a[3]) == len(b[3]), f"{what}: other number of results")
    for k, (x, y) in enumerate(zip(a[3], b[3])):
        close(x, y, f"{what}: later result {k}")
        obs.hit("later_values")


def must_differ(o, name, bits):
    """Is the tensor certainly random?"""
    k, s = o["kind"], o.get("spec")
    if not np.prod(bits[1]):
        return False
    if k in ("near_eye", "normal", "mlp", "phases"):
        return True
    if k == "prob":
        return name in ("core_tensors", "edge_vecs")
    if k == "ti":
        return name == "core_tensor"
    return False


def run(c, obs):
    a = program(c, c["seed"])
    rng = np.random.default_rng(c["other"])
    b = program(c, c["seed"], disturb(c, rng))
    compare(a, b, "second run from the same seed", obs)
    # another seed
    torch.manual_seed(c["seed"] + 1)
    again = [{k: mon.bits(v) for k, v in tensors(construct(o)).items()} for o in c["objs"]]
    for o, x, y in zip(c["objs"], a[1], again):
        need(sorted(x) == sorted(y), "other seed: other tensors")
        for k in x:
            if must_differ(o, k, x[k]):
                need(x[k] != y[k], "another seed gives the same random tensor", kind=o["kind"], name=k)
                obs.hit("other_seed")
        if "spec" in o:
            need(x != y, "another seed gives the same model", kind=o["kind"])
            obs.hit("other_models")
    # objects built the same way from one seed draw different numbers
    for i in range(len(c["objs"]) - 1):
        o = c["objs"][i]
        if o == c["objs"][i + 1]:
            x, y = a[1][i], a[1][i + 1]
            for k in x:
                if must_differ(o, k, x[k]):
                    need(x[k] != y[k], "two objects built one after the other have the same random tensor", kind=o["kind"], name=k)
            need(x != y or o["kind"] == "helper", "two objects built one after the other are equal", kind=o["kind"])
            obs.hit("successive")
    if c["process"]:
        code = ("import json,sys,torch; torch.set_num_threads(1); from checks import c34; c=json.load(sys.stdin); "
                "a=c34.program(c,c['seed']); print('DIGEST',c34.digest([a[1],a[2]]))")
        env = dict(os.environ, PYTHONHASHSEED=str(c["other"] % 4000000), PYTHONPATH=os.pathsep.join([REPO, VERIF]),
                   OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", code], input=json.dumps(c), text=True, capture_output=True, env=env,
                           cwd=VERIF, timeout=200)
        got = [l.split()[1] for l in r.stdout.splitlines() if l.startswith("DIGEST")]
        if not got:
            raise RuntimeError("the other process failed: " + r.stderr[-600:])
        need(got[0] == digest([a[1], a[2]]), "another process draws other initial tensors from the same seed")
        obs.hit("processes")
    for o in c["objs"]:
        obs.state(o["kind"], str(o.get("spec", {}).get("D")), str(o.get("spec", {}).get("n")), str(o.get("spec", {}).get("pbc")),
                  str(o.get("spec", {}).get("cplx")))
    obs.hit("programs")
    if len(c["objs"]) >= 3 and len(a[3]) >= 2:
        obs.nontrivial(c["seed"])
