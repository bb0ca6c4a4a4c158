"""C30: repeated use leaves no memory behind."""
import copy
import ctypes
import gc
import threading

import numpy as np
import torch

from rtm import gen as G
from rtm.core import fail, need

CASES = {"quick": 260, "thorough": 4000}
RULE = ("random model of every class (or the contraction, factorization, initialization and data functions) put through "
        "identical windows of a random mix of operations: evaluation with every option, training steps, merge-state "
        "changes, feature map registrations, failing calls, copies, state dictionaries, short-lived threads; after a "
        "warm-up the bytes in use by the C allocator (which holds all tensors and autograd graphs) and the number of "
        "tracked Python objects are read after each window; a leak is growth in every one of the last windows; "
        "non-trivial if at least 30 operations were repeated per window")
MIN = {"changes": 3130, "copies": 4614, "failing_calls": 2408, "flat_models": 116, "operations": 14615,
       "threads": 2313, "training_steps": 3418, "windows": 425}
ASSUMPTIONS = ["glibc's mallinfo2 counts the bytes in use of every allocation arena"]


class _Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in
                "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


_libc = ctypes.CDLL(None)
_libc.mallinfo2.restype = _Info


def in_use():
    gc.collect()
    i = _libc.mallinfo2()
    return i.uordblks + i.hblkhd, len(gc.get_objects())


def gen(rng, tier, idx):
    kind = ["prob", "ada", "mps", "ti", "funs", "ada", "prob"][idx % 7]
    c = {"kind": kind, "seed": G.rs(rng)}
    if kind == "prob":
        c["spec"] = G.prob_spec(rng, nmax=5, dtypes=("f32", "f64"), dist="normal")
        c["spec"]["n"] = max(1, c["spec"]["n"])
        c["spec"]["inp"] = G.pick(rng, ["sym", "vec"])
    elif kind == "ti":
        c["spec"] = G.ti_spec(rng)
    elif kind in ("mps", "ada"):
        c["spec"] = G.mps_spec(rng, nmax=6, adaptive=kind == "ada")
        if kind == "ada":
            c["spec"]["thresh"] = G.pick(rng, [1, 2, 3, 5])
    ops = {"prob": ["eval", "slim", "par", "norm", "train", "fail", "thread", "copy", "state"],
           "mps": ["eval", "train", "fail", "map", "thread", "copy", "state"],
           "ada": ["eval", "train", "train", "fail", "map", "thread", "copy", "state"],
           "ti": ["eval", "train", "fail", "map", "list", "thread", "copy", "state"],
           "funs": ["matseq", "svd", "init", "data", "chain", "broadcast", "emb", "construct"]}[kind]
    keep = [o for o in ops if rng.random() < 0.55] or [G.pick(rng, ops)]
    if kind == "ada" and not {"eval", "train"} & set(keep):
        keep.append("train")
    c["ops"] = [G.pick(rng, keep) for _ in range(G.ri(rng, 3, 7))]
    c["opt"] = G.pick(rng, ["sgd", "adam"])
    return c


class FMap(torch.nn.Module):
    def __init__(self, d, dtype):
        super().__init__()
        self.a = torch.nn.Parameter(torch.ones(d).to(dtype))

    def forward(self, x):
        return torch.cos(self.a * x)


def model_ops(c, rng, obs):
    s = c["spec"]
    emb = None
    if c["kind"] == "prob":
        model, emb = G.build_prob(s)
    elif c["kind"] == "ti":
        model = G.build_ti(s)
    else:
        model = G.build_mps(s)
    fdt = G.F[s["dtype"]]
    d = s["d"]
    inputs = []
    for b in (1, 2, 3):
        if c["kind"] == "prob":
            inputs.append(G.prob_input(s, rng, b, emb)[0])
        elif c["kind"] == "ti":
            inputs.append(torch.tensor(rng.uniform(size=(b, 3, d))).to(fdt))
        else:
            inputs.append(G.mps_input(s, rng, b)[0])
    opt = (torch.optim.SGD if c["opt"] == "sgd" else torch.optim.Adam)(model.parameters(), lr=1e-3)
    tick = [0]

    def x():
        tick[0] += 1
        return inputs[tick[0] % 3]

    def guarded(f):
        try:
            return f()
        except (RuntimeError, AssertionError, ValueError, IndexError, TypeError):
            return None

    def evaluate(**kw):
        with torch.no_grad():
            guarded(lambda: model(x(), **kw))

    def train():
        def one():
            opt.zero_grad()
            out = model(x())
            (-out.mean() if c["kind"] == "prob" else (out - 1).pow(2).mean()).backward()
            for p in model.parameters():
                if p.grad is not None:
                    p.grad.nan_to_num_(0, 0, 0) if not p.is_complex() else torch.view_as_real(p.grad).nan_to_num_(0, 0, 0)
                    p.grad.clamp_(-1, 1) if not p.is_complex() else torch.view_as_real(p.grad).clamp_(-1, 1)
            opt.step()
        guarded(one)
        obs.hit("training_steps")

    def failing():
        bad = torch.zeros(2, s.get("width", s.get("n", 3)) + 4, d + 1, dtype=fdt)
        try:
            model(bad)
        except Exception:
            obs.hit("failing_calls")

    maps = [None, lambda v: torch.stack([v.to(fdt)] * d), "module"]

    def register():
        m = maps[tick[0] % 3]
        tick[0] += 1
        if m == "module":
            m = FMap(d, fdt)
        model.register_feature_map(m)
        if m is None and d != 2:
            return
        width = 3 if c["kind"] == "ti" else s.get("width", s["n"])
        with torch.no_grad():
            guarded(lambda: model(torch.full((2, width), 0.25, dtype=fdt)))

    def thread():
        t = threading.Thread(target=lambda: guarded(lambda: model(x())))
        t.start()
        t.join()
        obs.hit("threads")

    def copied():
        m2 = copy.deepcopy(model)
        guarded(lambda: m2(x()))
        obs.hit("copies")

    def state():
        model.load_state_dict(model.state_dict())
        obs.hit("copies")

    def seqlist():
        rows = [torch.full((k, d), 0.5, dtype=fdt) for k in (1, 3, 2)]
        guarded(lambda: model(rows))

    return model, {"eval": evaluate, "slim": lambda: evaluate(slim_eval=True), "par": lambda: evaluate(parallel_eval=True),
                   "norm": lambda: guarded(lambda: model.log_norm() if s["kind"] == "fixed" else model.log_norm(s["n"])),
                   "train": train, "fail": failing, "map": register, "thread": thread, "copy": copied, "state": state,
                   "list": seqlist}


def fun_ops(c, rng):
    from torchmps import MPS, ProbMPS, TI_MPS
    from torchmps import contractables as K
    from torchmps import embeddings as E
    from torchmps import mps_base as B
    from torchmps import utils as U
    from torchmps import utils2 as U2

    mats = torch.tensor(rng.normal(size=(2, 5, 3, 3))).requires_grad_(True)
    vec = torch.tensor(rng.normal(size=(3,)))
    ten = torch.tensor(rng.normal(size=(2, 3, 4)))
    core = torch.tensor(rng.normal(size=(4, 2, 3, 3))).requires_grad_(True)
    bnd = torch.tensor(rng.normal(size=(2, 3)))

    def matseq():
        for kw in ({}, {"parallel_eval": True}, {"log_format": True}):
            out = B.contract_matseq(mats, vec, vec, **kw)
            (out[0] + out[1] if isinstance(out, tuple) else out).sum().backward()
        B.get_log_norm(core, bnd).backward()
        B.slim_eval_fun(torch.zeros(2, 4, dtype=torch.long), core, bnd)[0].sum().backward()

    def svd():
        U.svd_flex(ten, "abc->ax,xbc", max_D=2, cutoff=1e-3)
        try:
            U.svd_flex(ten, "abc->ax,xbc", cutoff=1e9)
        except RuntimeError:
            pass

    def init():
        B.near_eye_init((2, 3, 3))
        B.normal_init((2, 3, 3), is_complex=True)
        U.init_tensor([2, 3, 3], "slr", ("random_eye", 0.1))

    def data():
        U.joint_shuffle(torch.rand(6, 2), torch.arange(6))
        U.onehot(torch.arange(3), 4)
        U.load_HV_data(3)

    def chain():
        m = K.MatRegion(torch.ones(2, 3, 2, 2))
        v = K.EdgeVec(torch.ones(2, 2), is_left_vec=True)
        o = K.OutputCore(torch.ones(2, 3, 2, 2))
        K.ContractableList([v, m, o]).reduce()
        K.ContractableList([v, m, o]).reduce(parallel_eval=True)
        try:
            m * m
        except TypeError:
            pass

    def broadcast():
        U2.batch_broadcast((torch.ones(2, 1, 3), torch.ones(4, 2)), (1, 1))
        try:
            U2.batch_broadcast((torch.ones(2, 3), torch.ones(4, 2)), (1, 1))
        except ValueError:
            pass

    def emb():
        e = E.FixedEmbedding(E.sincos_embed, E.unit_interval)
        e(torch.rand(2, 3))
        t = E.init_mlp_embed(2, 2, [3])
        t.lamb_mat.sum().backward()

    def construct():
        MPS(4, 2, 2)
        MPS(4, 2, 2, adaptive_mode=True)
        TI_MPS(2, 2)
        ProbMPS(3, 2, 2, use_bias=True)(torch.zeros(1, 3, dtype=torch.long))

    return {"matseq": matseq, "svd": svd, "init": init, "data": data, "chain": chain, "broadcast": broadcast, "emb": emb,
            "construct": construct}


def run(c, obs):
    rng = np.random.default_rng(c["seed"])
    model = None
    if c["kind"] == "funs":
        ops = fun_ops(c, rng)
    else:
        model, ops = model_ops(c, rng, obs)
    acts = [ops[o] for o in c["ops"]]
    rounds = max(6, 42 // len(acts) // 6 * 6)  # a multiple of the number of inputs and maps

    region = getattr(model, "linear_region", None) if c["kind"] == "ada" else None

    def window():
        for _ in range(rounds):
            for a in acts:
                before = getattr(region, "offset", None)
                a()
                if getattr(region, "offset", None) != before:
                    obs.hit("changes")

    window()
    window()
    last = in_use()
    grow = []
    flat = 0
    for k in range(9):
        window()
        now = in_use()
        grow.append((now[0] - last[0], now[1] - last[1]))
        last = now
        obs.hit("windows")
        obs.hit("operations", rounds * len(acts))
        flat = flat + 1 if max(grow[-1]) <= 0 else 0
        if flat >= 2:
            break
    small = 4 * rounds
    last5 = grow[-5:]
    if not flat and len(grow) == 9:
        need(not all(g[0] >= small for g in last5), "memory grows with every repetition of the same operations",
             ops=c["ops"], bytes_per_window=[g[0] for g in grow])
        need(not all(g[1] >= max(1, rounds // 4) for g in last5), "objects accumulate with every repetition",
             ops=c["ops"], objects_per_window=[g[1] for g in grow])
        obs.hit("unsettled")
    else:
        obs.hit("flat_models")
    obs.state(c["kind"], tuple(sorted(set(c["ops"]))), c["opt"])
    if rounds * len(acts) >= 30:
        obs.nontrivial(c["seed"])
