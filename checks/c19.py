"""C19: saving, copying and restoring at any point reproduces the model."""
import copy
import io
import os
import pickle
import tempfile

import numpy as np
import torch

from rtm import gen as G
from rtm import mon, refs
from rtm.core import Skip, fail, need

CASES = {"quick": 1050, "thorough": 15000}
RULE = ("random model of every class (adaptive ones at random points of their merge schedule; embeddings, feature map "
        "modules, biases) trained for a random number of steps, then restored by deep copy, pickle, torch.save of the model, "
        "or state dictionary (in memory, through a file, through a byte buffer) into a freshly built model; original and "
        "copy must have equal parameters and outputs, then both continue training with their own optimizers on the same "
        "data and are compared call by call, including later merge-state changes; finally one is altered and the other "
        "must not notice; non-trivial if at least three outputs were compared after restoring")
MIN = {"adaptive_restored": 189, "changes_after": 456, "independence": 472, "outputs": 2645, "pickles": 126,
       "restored": 472, "restored_at_odd_state": 68, "state_dicts": 271, "steps_after": 2260, "with_map": 117}


def gen(rng, tier, idx):
    kind = ["prob", "mps", "ada", "ada", "ti"][idx % 5]
    c = {"kind": kind, "seed": G.rs(rng)}
    if kind == "prob":
        c["spec"] = G.prob_spec(rng, nmax=5, dtypes=("f32", "f64"))
        c["spec"]["inp"] = G.pick(rng, ["sym", "vec"])
        if c["spec"]["n"] == 0:
            c["spec"]["n"] = 1
    elif kind == "ti":
        c["spec"] = G.ti_spec(rng)
    else:
        c["spec"] = G.mps_spec(rng, nmax=6, adaptive=kind == "ada")
        if kind == "ada":
            c["spec"]["thresh"] = G.pick(rng, [2, 3, 5, 8])
            c["spec"]["cutoff"] = G.pick(rng, [1e-10, 1e-4, 1e-2])
    c["map"] = kind != "prob" and bool(rng.random() < 0.3)
    c["how"] = G.pick(rng, ["deepcopy", "pickle", "save", "sd", "sd_file", "sd_buffer", "sd"])
    c["opt"] = G.pick(rng, ["sgd", "adam", "momentum"])
    c["before"], c["after"] = G.ri(rng, 0, 8), G.ri(rng, 2, 8)
    return c


class Map(torch.nn.Module):
    def __init__(self, d, dtype):
        super().__init__()
        self.a = torch.nn.Parameter(torch.randn(d).to(dtype))

    def forward(self, x):
        return torch.cos(self.a * x)


def build(c, seed_shift=0):
    s = dict(c["spec"])
    s["seed"] += seed_shift
    emb = None
    if s.get("emb"):
        s["emb"] = dict(s["emb"])
        if s["emb"]["kind"] in ("mlp", "tabmod", "polymod"):
            s["emb"]["seed"] += seed_shift
    if c["kind"] == "prob":
        model, emb = G.build_prob(s)
    elif c["kind"] == "ti":
        model = G.build_ti(s)
        if not seed_shift and s["seed"] % 2:
            # fixed tensors which are not the ones a new model starts with
            with torch.no_grad():
                for b in model.buffers():
                    b.mul_(0.75).add_(0.1)
    else:
        model = G.build_mps(s)
    if c["map"]:
        torch.manual_seed(s["seed"])
        model.register_feature_map(Map(s["d"], G.F[s["dtype"]]))
    return model, emb


def make_opt(c, model):
    ps = list(model.parameters())
    return {"sgd": lambda: torch.optim.SGD(ps, lr=0.02), "momentum": lambda: torch.optim.SGD(ps, lr=0.02, momentum=0.8),
            "adam": lambda: torch.optim.Adam(ps, lr=0.01)}[c["opt"]]()


def batches(c, rng, num, emb):
    s = c["spec"]
    out = []
    for _ in range(num):
        b = G.pick(rng, [1, 2, 3])
        if c["kind"] == "prob":
            out.append(G.prob_input(s, rng, b, emb)[0])
        elif c["kind"] == "ti":
            raw = (s["d"] == 2 or c["map"]) and rng.random() < 0.6
            n = G.ri(rng, 1, 4)
            out.append(torch.tensor(rng.uniform(size=(b, n) if raw else (b, n, s["d"]))).to(G.F[s["dtype"]]))
        else:
            width = s.get("width", s["n"])
            raw = (s["d"] == 2 or c["map"]) and rng.random() < 0.6
            out.append(torch.tensor(rng.uniform(size=(b, width) if raw else (b, width, s["d"]))).to(G.F[s["dtype"]]))
    return out


def step(c, model, opt, t):
    """Output of a training step, or an exception's name."""
    opt.zero_grad()
    try:
        out = model(t)
    except (RuntimeError, AssertionError) as e:
        return type(e).__name__
    loss = -out.mean() if c["kind"] == "prob" else (out - 1).pow(2).mean()
    if loss.requires_grad and torch.isfinite(loss):
        loss.backward()
        torch.nn.utils.clip_grad_norm_([p for p in model.parameters() if p.grad is not None and not p.is_complex()], 1.0)
        gs = [p.grad for p in model.parameters() if p.grad is not None and p.is_complex()]
        nrm = sum(float((g.abs() ** 2).sum()) for g in gs) ** 0.5
        if nrm > 1:
            for g in gs:
                g.div_(nrm)
        if all(bool(torch.isfinite(torch.view_as_real(p.grad) if p.is_complex() else p.grad).all())
               for p in model.parameters() if p.grad is not None):
            opt.step()
    return out.detach()


def params(model):
    return {k: mon.bits(v) for k, v in model.state_dict().items()}


def same_out(a, b, eps, what, loose, **kw):
    if isinstance(a, str) or isinstance(b, str):
        need(a == b if isinstance(a, str) and isinstance(b, str) else False, f"{what}: one of them failed", original=str(a)[:40], copy=str(b)[:40])
        return
    need(a.shape == b.shape and a.dtype == b.dtype, f"{what}: shape or precision", original=(tuple(a.shape), a.dtype), copy=(tuple(b.shape), b.dtype), **kw)
    x, y = refs.wide(a), refs.wide(b)
    nan = np.isnan(x) & np.isnan(y)
    scale = max(1.0, float(np.abs(x[np.isfinite(x)]).max(initial=0)))
    refs.close(np.where(nan, 0, y), np.where(nan, 0, x), loose * eps * scale, what, **kw)


def attempt(what, act):
    try:
        return act()
    except Exception as e:
        fail(f"{what} the model failed", error=f"{type(e).__name__}: {e}"[:200])


def state_kind(model):
    return tuple(k for k, _, _ in G.net_nodes(model))


def run(c, obs):
    s = c["spec"]
    rng = np.random.default_rng(c["seed"])
    eps = G.eps_s(s)
    model, emb = build(c)
    opt = make_opt(c, model)
    for t in batches(c, rng, c["before"], emb):
        r = step(c, model, opt, t)
        if isinstance(r, str):
            raise Skip("training failed")
    how = c["how"]
    before = params(model)
    if how == "deepcopy":
        new, nopt = attempt("deep copy", lambda: copy.deepcopy((model, opt)))
    elif how == "pickle":
        new, nopt = attempt("pickling", lambda: pickle.loads(pickle.dumps((model, opt))))
        obs.hit("pickles")
    elif how == "save":
        d = tempfile.mkdtemp(prefix="rtm19")
        f = os.path.join(d, "m.pt")
        attempt("saving", lambda: torch.save({"m": model, "o": opt}, f))
        got = torch.load(f, weights_only=False)
        os.remove(f)
        os.rmdir(d)
        new, nopt = got["m"], got["o"]
        obs.hit("pickles")
    else:
        new, _ = build(c, seed_shift=17)
        nopt = make_opt(c, new)
        sd, osd = model.state_dict(), opt.state_dict()
        if how == "sd_file":
            d = tempfile.mkdtemp(prefix="rtm19")
            f = os.path.join(d, "m.pt")
            torch.save(sd, f)
            sd = torch.load(f)
            os.remove(f)
            os.rmdir(d)
            osd = copy.deepcopy(osd)
        elif how == "sd_buffer":
            buf = io.BytesIO()
            torch.save({"m": sd, "o": osd}, buf)
            buf.seek(0)
            got = torch.load(buf, weights_only=False)
            sd, osd = got["m"], got["o"]
        else:
            osd = copy.deepcopy(osd)
        res = new.load_state_dict(sd)
        need(not res.missing_keys and not res.unexpected_keys, "state dictionary does not fit a model of the same configuration", result=str(res))
        nopt.load_state_dict(osd)
        obs.hit("state_dicts")
    obs.hit("restored")
    obs.hit("with_map", int(c["map"]))
    need(params(model) == before, "saving changed the original")
    after = params(new)
    need(set(after) == set(before), "names of the restored parameters", missing=sorted(set(before) ^ set(after))[:4])
    for k in before:
        need(after[k] == before[k], "a parameter was not restored", name=k)
    store = {p.untyped_storage().data_ptr() for p in model.state_dict().values() if p.numel()}
    need(not any(p.untyped_storage().data_ptr() in store for p in new.state_dict().values() if p.numel()),
         "the restored model shares memory with the original")
    ada = c["kind"] == "ada"
    if ada:
        obs.hit("adaptive_restored")
        need(state_kind(model) == state_kind(new), "restored with another merge state", original=state_kind(model), copy=state_kind(new))
        obs.hit("restored_at_odd_state", int(model.linear_region.offset))
        if not how.startswith("sd"):
            need(torch.equal(model.bond_list, new.bond_list) and torch.equal(model.sv_list, new.sv_list),
                 "bond or singular-value list not restored")
    # continue side by side
    compared, loose = 0, 64.0
    for t in batches(c, rng, c["after"], emb):
        if ada:
            k0 = state_kind(model)
        if rng.random() < 0.3 and not ada:
            with torch.no_grad():
                try:
                    o1 = model(t)
                except AssertionError:
                    continue
                same_out(o1, new(t), eps, "output of the restored model", loose, how=how)
            obs.hit("outputs")
        a, b = step(c, model, opt, t), step(c, new, nopt, t)
        same_out(a, b, eps, "output while training the restored model", loose, how=how, step=compared)
        if isinstance(a, str):
            break
        if ada:
            need(state_kind(model) == state_kind(new), "merge states diverged after restoring", how=how, step=compared)
            obs.hit("changes_after", int(state_kind(model) != k0))
            if state_kind(model) != k0:
                need(torch.equal(model.bond_list, new.bond_list) or not how.startswith(("deep", "pick", "save")),
                     "reported bonds diverged after restoring")
        obs.hit("outputs")
        obs.hit("steps_after")
        compared += 1
        loose *= 6
        if loose * eps > 0.2:
            break
    # independence
    before = params(model)
    with torch.no_grad():
        for p in new.parameters():
            p.add_(0.37)
    for b in new.buffers():
        b.add_(0.5)
    if ada:
        new.bond_list[0] = 77
        need(int(model.bond_list[0]) != 77, "bond lists are shared")
    need(params(model) == before, "changing the copy changed the original")
    before = params(new)
    for t in batches(c, rng, 2, emb):
        step(c, model, opt, t)
    need(params(new) == before, "training the original changed the copy")
    obs.hit("independence")
    obs.state(c["kind"], how, c["opt"], c["before"], str(s.get("thresh")), c["map"], s.get("emb") and s["emb"]["kind"])
    if compared >= 3:
        obs.nontrivial(c["seed"])
