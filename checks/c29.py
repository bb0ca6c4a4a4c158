"""C29: operation counts, work and memory of the evaluation options, observed at the tensor dispatcher."""
import weakref

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode

from rtm import gen as G
from rtm.core import Skip, fail, need

CASES = {"quick": 400, "thorough": 6000}
CHUNK = 4
RULE = ("every tensor operation of real evaluations is recorded: number of operations of parallel evaluation when the "
        "length is doubled twice (up to 512 sites; products, matrix regions, networks in both merge states, TI models), size of "
        "every fresh tensor and of all live ones in slim evaluation without gradients when length and bond dimension are "
        "multiplied, multiplications carried out by serial evaluation with boundary vectors against the work of "
        "matrix-matrix products; for random batch sizes, types, options and embeddings; non-trivial if at least 10 "
        "operations were observed")
MIN = {"norms": 14, "operations": 846561, "ordinary_evaluation_grows": 15, "parallel_matseq": 7, "parallel_net": 15,
       "parallel_prob": 7, "parallel_region": 7, "parallel_ti": 7, "serial_matseq": 15, "serial_net": 5,
       "serial_prob": 7, "serial_ti": 7, "slim_models": 15}
ASSUMPTIONS = ["fused operators count as one operation; memory inside an operator is not observed"]


class Watch(TorchDispatchMode):
    """Counts operations, multiplications of matrix products, fresh and live tensor sizes."""

    def __init__(self, live=False):
        super().__init__()
        self.n = self.work = self.fresh = self.peak = 0
        self.fresh_op = None
        self.want_live, self.alive = live, {}
        self.matmat = 0

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        out = func(*args, **kwargs)
        self.n += 1
        name = func._schema.name.split("::")[-1]
        ins = set()
        stack = list(args) + list(kwargs.values())
        while stack:
            a = stack.pop()
            if isinstance(a, torch.Tensor):
                if a.numel():
                    ins.add(a.untyped_storage().data_ptr())
            elif isinstance(a, (list, tuple)):
                stack.extend(a)
        t = [a for a in args if isinstance(a, torch.Tensor)]
        if name in ("mm", "bmm", "addmm", "baddbmm", "addbmm", "matmul", "mv", "dot", "vdot", "addmv") and len(t) >= 2:
            x, y = t[-2], t[-1]
            o = out.numel()
            self.work += o * x.shape[-1]
        for o in out if isinstance(out, (tuple, list)) else (out,):
            if isinstance(o, torch.Tensor) and o.numel():
                p = o.untyped_storage().data_ptr()
                if p in ins:
                    continue
                size = o.untyped_storage().nbytes() // o.element_size()
                if name in ("mul", "div", "sum"):
                    self.work += o.numel()
                if size > self.fresh:
                    self.fresh, self.fresh_op = size, (name, tuple(o.shape))
                if self.want_live:
                    r = weakref.ref(o)
                    self.alive[id(r)] = (r, size)
        if self.want_live:
            self.alive = {k: v for k, v in self.alive.items() if v[0]() is not None}
            self.peak = max(self.peak, sum(v[1] for v in self.alive.values()))
        return out


def gen(rng, tier, idx):
    kind = ["par_matseq", "par_net", "slim", "serial_matseq", "serial_net", "par_ti", "slim", "serial_ti", "par_region",
            "serial_matseq", "par_net", "serial_prob", "par_prob", "norm"][idx % 14]
    return {"kind": kind, "seed": G.rs(rng), "B": G.ri(rng, 1, 4), "D": G.ri(rng, 1, 4), "d": G.ri(rng, 1, 3),
            "dt": G.pick(rng, ["f32", "f64"]), "cplx": bool(rng.random() < 0.4), "vecs": G.pick(rng, ["l", "r", "lr"]),
            "pbc": bool(rng.random() < 0.4), "ad": bool(rng.random() < 0.3), "label": float(rng.random()),
            "n0": G.pick(rng, [100, 120, 127, 128]), "list": bool(rng.random() < 0.5), "log": bool(rng.random() < 0.5),
            "grad": bool(rng.random() < 0.5), "unif": bool(rng.random() < 0.5), "emb": bool(rng.random() < 0.3),
            "vec": bool(rng.random() < 0.5), "bias": bool(rng.random() < 0.5), "o": G.ri(rng, 1, 3), "steps": G.ri(rng, 0, 2),
            "fixed": bool(rng.random() < 0.5)}


def rnd(rng, c, *shape):
    v = rng.normal(size=shape) / max(1, shape[-1]) ** 0.5
    if c["cplx"]:
        v = v + 1j * rng.normal(size=shape)
    return torch.tensor(v).to(G.F[c["dt"]] if not c["cplx"] else torch.complex64 if c["dt"] == "f32" else torch.complex128)


def run(c, obs):
    rng = np.random.default_rng(c["seed"])
    with torch.set_grad_enabled(c["grad"]):
        globals()["run_" + c["kind"].split("_")[0]](c, obs, rng)


def watched(f, obs, live=False):
    with Watch(live) as w:
        f()
    obs.hit("operations", w.n)
    return w


def evaluation(c, rng, kind, n, D, B):
    """A function evaluating something of this kind with n sites and bond dimension D."""
    from torchmps import MPS, TI_MPS
    from torchmps import contractables as C
    from torchmps.mps_base import contract_matseq

    dt = G.F[c["dt"]]
    if kind == "matseq":
        mats = rnd(rng, c, B, n, D, D)
        l = rnd(rng, c, B, D) if rng.random() < 0.5 else rnd(rng, c, D)
        r = rnd(rng, c, D)
        kw = {}
        if "l" in c["vecs"]:
            kw["left_vec"] = l
        if "r" in c["vecs"]:
            kw["right_vec"] = r
        return mats, kw
    if kind == "region":
        reg = C.MatRegion(rnd(rng, c, B, n, D, D))
        return lambda: reg.reduce()
    if kind == "net":
        s = {"n": n, "o": c["o"], "D": D, "d": c["d"], "pbc": c["pbc"] and c["kind"].startswith("par"), "par": c["kind"].startswith("par"),
             "label": int(c["label"] * (n + 0.999)), "bias": c["bias"] and not c["ad"], "adaptive": c["ad"], "path": None,
             "seed": c["seed"], "dtype": c["dt"], "dist": "init", "thresh": 10**6, "cutoff": 1e-20}
        model = G.build_mps(s)
        x, _ = G.mps_input({**s, "pre": True}, rng, B)
        if c["ad"]:
            for _ in range(c["steps"]):
                model.linear_region.merge_threshold = 1
                model(x)
            model.linear_region.merge_threshold = 10**6
        return lambda: model(x)
    if kind == "ti":
        model = TI_MPS(c["o"] if not c["fixed"] else 1, D, feature_dim=c["d"], parallel_eval=c["kind"].startswith("par"),
                       fixed_ends=c["fixed"], use_bias=c["bias"], fixed_bias=c["ad"])
        model = model.double() if c["dt"] == "f64" else model
        x = torch.tensor(rng.normal(size=(B, n, c["d"]))).to(dt)
        return lambda: model(x)
    if kind == "prob":
        s = {"kind": "unif" if c["unif"] else "fixed", "n": n, "d": max(2, c["d"]), "D": D, "cplx": c["cplx"], "bias": c["bias"],
             "init": "near_eye", "dtype": c["dt"], "dist": "eye", "seed": c["seed"], "inp": "vec" if c["vec"] else "sym",
             "emb": {"kind": "trig", "cont": True, "lo": 0, "hi": 1, "seed": c["seed"], "wrapped": False} if c["emb"] else None}
        model, emb = G.build_prob(s)
        x, _ = G.prob_input(s, rng, B, emb)
        # both options together mean parallel evaluation
        g = model.loss if c["log"] else model
        return lambda: g(x, parallel_eval=True, slim_eval=c["list"]), lambda: model.log_norm(n) if c["unif"] else model.log_norm()
    raise ValueError(kind)


def run_par(c, obs, rng):
    from torchmps.mps_base import contract_matseq

    kind = c["kind"].split("_")[1]
    n0 = c["n0"]
    ns = [n0, 2 * n0, 4 * n0]
    counts = []
    for n in ns:
        if kind == "matseq":
            mats, kw = evaluation(c, rng, kind, n, c["D"], c["B"])
            if rng.random() < 0.3:
                kw = {}
            f = lambda: contract_matseq(mats, parallel_eval=True, log_format=c["log"], **kw)
        else:
            f = evaluation(c, rng, kind, n, c["D"], c["B"])
        if kind == "prob":
            # the norm takes a number of operations of its own for every site
            f, norm = f
            counts.append(watched(f, obs).n - watched(norm, obs).n)
        else:
            counts.append(watched(f, obs).n)
    a, b = counts[1] - counts[0], counts[2] - counts[1]
    # one operation per two sites would add n0 operations at the second doubling
    need(b <= n0 - 8 and a <= n0 - 8,
         "number of operations of parallel evaluation does not grow logarithmically", lengths=ns, operations=counts)
    obs.high("operations_per_doubling " + kind, max(a, b))
    obs.hit("parallel_" + kind)
    obs.nontrivial(c["seed"])
    obs.state(kind, *ns, c["D"], c["B"])


def run_slim(c, obs, rng):
    """Slim evaluation: (n, D) -> (4n, D): growth may come from the input only."""
    from torchmps.mps_base import slim_eval_fun

    B, d, D = c["B"], max(2, c["d"]), 24
    n1, n2 = 6, 48
    got = []
    for n in (n1, n2):
        s = {"kind": "unif" if c["unif"] else "fixed", "n": n, "d": d, "D": D, "cplx": c["cplx"], "bias": False, "init": "near_eye",
             "dtype": c["dt"], "dist": "eye", "seed": c["seed"], "inp": "vec" if c["vec"] else "sym",
             "emb": {"kind": "trig", "cont": True, "lo": 0, "hi": 1, "seed": c["seed"], "wrapped": False} if c["emb"] else None}
        model, emb = G.build_prob(s)
        x, _ = G.prob_input(s, rng, B, emb)
        with torch.no_grad():
            g = model.loss if c["log"] else model
            w = watched(lambda: g(x, slim_eval=True), obs, live=True)
            e = emb.obj(x) if emb is not None and emb.obj is not None else model.embedding(x) if emb is not None else x
            u = watched(lambda: slim_eval_fun(e, model.core_tensors, model.edge_vecs), obs, live=True)
            full = watched(lambda: model(x), obs, live=True)
        got.append((w, u, full))
    # numbers, not bytes; complex ones may be held as two reals
    allow = 8 * B * (n2 - n1) * (d + 4)
    for which, k in (("model", 0), ("slim_eval_fun", 1)):
        for what in ("fresh", "peak"):
            a, b = getattr(got[0][k], what), getattr(got[1][k], what)
            need(b - a <= allow, f"memory of slim evaluation ({which}, {what}) grows with length times bond dimension",
                 lengths=(n1, n2), bond_dim=D, numbers=(a, b), allowed=allow, op=got[1][k].fresh_op)
            obs.high(f"growth/allowed ({what})", (b - a) / allow)
    obs.hit("slim_models")
    if got[1][2].fresh - got[0][2].fresh > allow:
        obs.hit("ordinary_evaluation_grows")
    obs.nontrivial(c["seed"])
    obs.state("slim", B, d, c["unif"], c["cplx"], c["emb"], c["vec"])


def run_norm(c, obs, rng):
    """The log norm holds matrices and cores, never the transfer operator."""
    from torchmps.mps_base import get_log_norm

    n, d, D, k = 4, max(2, c["d"]), 40, c["B"] - 1
    if c["log"]:
        s = {"kind": "unif" if c["unif"] else "fixed", "n": n, "d": d, "D": D, "cplx": c["cplx"], "bias": c["bias"],
             "init": "near_eye", "dtype": c["dt"], "dist": "eye", "seed": c["seed"], "inp": "sym",
             "emb": [None, {"kind": "trig", "cont": True, "lo": 0, "hi": 1, "seed": c["seed"], "wrapped": False},
                     {"kind": "onehot", "cont": False, "size": d, "seed": c["seed"], "wrapped": False}][k % 3]}
        model, _ = G.build_prob(s)
        f = lambda: model.log_norm(n) if c["unif"] else model.log_norm()
    else:
        core = rnd(rng, c, d, D, D) if c["unif"] else rnd(rng, c, n, d, D, D)
        lamb = [None, torch.tensor(1.5), torch.rand(d) + 0.1, torch.eye(d) + 0.1][k]
        bv = rnd(rng, c, 2, D)
        kw = {"length": n} if c["unif"] else {}
        f = lambda: get_log_norm(core, bv, lamb_mat=None if lamb is None else lamb.to(G.F[c["dt"]]), **kw)
    w = watched(f, obs)
    # (an embedding is evaluated at 1000 points; complex numbers may be held as two reals)
    allow = 16 * (n * d + d * d) * D * D + 1000 * d * d * 4
    need(w.fresh <= allow, "the log norm holds tensors larger than the cores", bond_dim=D, numbers=w.fresh, allowed=allow, op=w.fresh_op)
    obs.high("norm: largest tensor/allowed", w.fresh / allow)
    obs.hit("norms")
    obs.nontrivial(c["seed"])
    obs.state("norm", k, d, c["log"], c["unif"], c["cplx"], c["bias"])


def run_serial(c, obs, rng):
    from torchmps.mps_base import contract_matseq

    kind = c["kind"].split("_")[1]
    B, n, D, base = c["B"], 24, 48, 0
    d = c["d"]
    if kind == "matseq":
        mats, kw = evaluation(c, rng, kind, n, D, B)
        shape = "tensor"
        if c["list"]:
            # different shapes in a list
            dims = [D] + [int(k) for k in rng.integers(D - 8, D + 1, size=n - 1)] + [D]
            mats = [rnd(rng, c, B, dims[i], dims[i + 1]) for i in range(n)]
            shape = "list"
        f = lambda: contract_matseq(mats, parallel_eval=False, log_format=c["log"], **kw)
        slices = 0
        obs.state(kind, shape, c["vecs"])
    elif kind == "net":
        f = evaluation(c, rng, kind, n, D, B)
        slices = B * n * D * D * ((d * d if c["ad"] else d) + 2) + B * c["o"] * D * D * (d + 2)
    elif kind == "ti":
        f = evaluation(c, rng, kind, n, D, B)
        slices = B * n * D * D * (d + 2) + B * D * c["o"]
    else:
        s = {"kind": "unif" if c["unif"] else "fixed", "n": n, "d": max(2, d), "D": D, "cplx": c["cplx"], "bias": c["bias"],
             "init": "near_eye", "dtype": c["dt"], "dist": "eye", "seed": c["seed"], "inp": "sym", "emb": None}
        B = 24  # the norm, independent of the batch, needs matrix-matrix products
        model, _ = G.build_prob(s)
        x, _ = G.prob_input(s, rng, B)
        base = watched(lambda: model.log_norm(n) if s["kind"] == "unif" else model.log_norm(), obs).work
        f = lambda: model(x)
        slices = B * n * D * D
    w = watched(f, obs)
    work = w.work - base
    matmat = B * (n - 1) * D**3
    allow = 3 * slices + 6 * B * (n + 2) * D * D
    if allow > matmat / 2:
        raise Skip("too small to tell")
    need(work <= allow, "serial evaluation with boundary vectors does the work of matrix-matrix products", kind=kind,
         work=work, allowed=allow, matrix_products=matmat)
    obs.high("work/allowed", work / allow)
    obs.high("work/matrix_products", work / matmat)
    obs.hit("serial_" + kind)
    obs.nontrivial(c["seed"])
