"""C07: MPS outputs against the tensor network described by its configuration and current cores."""
import itertools

import numpy as np
import torch

from rtm import gen as G
from rtm import refs
from rtm.core import need

# exhaustive part: every size up to 5, label site, boundary condition, evaluation, bias, adaptive mode
GRID = [(n, l, pbc, par, bias, ad) for n in range(1, 6) for l in [None] + list(range(n + 1)) for pbc in (False, True)
        for par in (False, True) for bias, ad in ((False, False), (True, False), (False, True))]
CASES = {"quick": len(GRID) + 2400, "thorough": len(GRID) + 40000}
RULE = ("every combination of size 1..5, label site (also default), open/periodic, serial/parallel, bias/no bias/adaptive, "
        "then random configurations with paths, feature dimensions, precisions and parameter histories; raw, pre-embedded, "
        "strided and leaf inputs; outputs compared with a NumPy contraction of the current cores; non-trivial if n, D "
        "and the number of outputs are not all 1")
MIN = {"embedded": 1283, "frozen": 389, "label_checked": 1215, "outputs_decided": 43541, "raw": 755,
       "updates": 1193, "with_path": 568}


def gen(rng, tier, idx):
    if idx < len(GRID):
        n, l, pbc, par, bias, ad = GRID[idx]
        s = G.mps_spec(rng, adaptive=ad, path=False)
        s.update(n=n, label=l, pbc=pbc, par=par, bias=bias, D=G.pick(rng, [2, 3]), o=G.pick(rng, [1, 2, 3]),
                 dist=G.pick(rng, ["normal", "normal", "eye"]))
    else:
        s = G.mps_spec(rng, nmax=9, Dmax=6, omax=6, dmax=4)
        if idx % 40 == 0:
            s.update(n=30, label=None, path=None, adaptive=False, dist="eye")
            s.pop("width", None)
    large = G.enlarge(s, rng) if idx % 20 == 13 and idx >= len(GRID) else None
    s["thresh"] = 10**6
    return {"spec": s, "seed": G.rs(rng),
            "steps": [G.pick(rng, ["eval", "eval", "set", "sgd", "load", "freeze"]) for _ in range(G.ri(rng, 1, 3))] + ["eval"], "batch": large}


def feed(s, rng, batch):
    pre = bool(s["d"] != 2 or rng.random() < 0.5)
    t, w = G.mps_input(dict(s, pre=pre, xr=G.pick(rng, [(0, 1), (0, 1), (-2, 3)])), rng, batch)
    return t, w, pre


def run(case, obs):
    s = case["spec"]
    rng = np.random.default_rng(case["seed"])
    model = G.build_mps(s)
    label = s["n"] // 2 if s["label"] is None else s["label"]
    need(len(model) == s["n"], "len(model) is not the number of inputs")
    nodes = G.net_nodes(model)
    if not s["adaptive"]:
        mats, _, pos, core, _ = G.net_mats(nodes, np.zeros((1, s["n"], s["d"])))
        need(pos == label, "output core is not at the label site", pos=pos, label=label)
        need(core.shape[1] == s["o"], "output dimension")
        for kind, t, extra in nodes:
            if kind == "region":
                need((extra is not None) == s["bias"], "bias matrices do not follow use_bias")
        obs.hit("label_checked")
    else:
        # output position counted in inputs, for merged cores too
        before = 0
        for kind, t, extra in nodes:
            if kind in ("out", "mout"):
                need(before + (1 if kind == "mout" and not extra else 0) == label, "output core is not at the label site")
                break
            before += {"region": 1, "merged": 2, "site": 0}[kind] * t.shape[0] + (kind == "site")
        obs.hit("label_checked")
    for st in case["steps"]:
        if st == "set":
            G.set_net_params(model, G.pick(rng, ["normal", "eye", "sparse"]), rng)
            obs.hit("updates")
        elif st == "freeze":
            G.freeze(model, rng)
            obs.hit("frozen")
        elif st == "load":
            model.load_state_dict({k: v + 0.1 * G.rand_like(v, rng) for k, v in model.state_dict().items()})
            obs.hit("updates")
        elif st == "sgd":
            t, w, _ = feed(s, rng, 3)
            opt = torch.optim.Adam(model.parameters(), lr=0.05)
            tgt = torch.randn(3, s["o"])
            G.train_steps(model, opt, lambda: ((model(t) - tgt) ** 2).mean(), 2)
            obs.hit("updates")
        else:
            t, w, pre = feed(s, rng, case.get("batch") or G.pick(rng, [1, 2, 3, 5]))
            if rng.random() < 0.2:
                t = t.transpose(0, 1).contiguous().transpose(0, 1)
            t.requires_grad_(bool(rng.random() < 0.3))
            with torch.set_grad_enabled(bool(rng.random() < 0.5)):
                out = model(t)
            ref, err = G.mps_ref(model, s, w)
            G.check_out(out, ref, err, "MPS output", obs, G.F[s["dtype"]])
            obs.hit("embedded" if pre else "raw")
            obs.hit("with_path", int(s.get("path") is not None))
    obs.state(*[str(s.get(k)) for k in ("n", "o", "D", "d", "pbc", "par", "label", "bias", "adaptive", "path")])
    if s["n"] * s["D"] * s["o"] > 1:
        obs.nontrivial(case["seed"])
