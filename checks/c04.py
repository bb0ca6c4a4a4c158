"""C04: the parallel flag of MPS and TI_MPS changes neither outputs nor gradients."""
import numpy as np
import torch

from rtm import gen as G
from rtm import refs, tref
from rtm.core import need

CASES = {"quick": 2250, "thorough": 20000}
RULE = ("random MPS (open/periodic, any label site, bias, path, adaptive) or TI_MPS built twice, with and without "
        "parallel evaluation, sharing parameters; several calls with different batch sizes; outputs and gradients of "
        "every parameter and of the input compared with each other and with a double-precision reference; "
        "non-trivial if the chain has at least two sites and bond dimension above one")
MIN = {"even_lengths": 513, "gradients": 12023, "odd_lengths": 499, "outputs": 61290}


def gen(rng, tier, idx):
    if idx % 3 == 0:
        s = G.ti_spec(rng)
        s["n"] = G.pick(rng, [0, 1, 2, 3, 4, G.ri(rng, 1, 9), G.ri(rng, 8, 17)])
    else:
        s = G.mps_spec(rng, nmax=9)
        if idx % 15 == 1:
            s.update(n=G.ri(rng, 10, 20), label=None, path=None, adaptive=False)
            s.pop("width", None)
    s.setdefault("thresh", 1000)
    s["thresh"] = 100000
    s["par"] = False
    batches = [G.pick(rng, [1, 2, 3, 5, 8]) for _ in range(2)]
    if idx % 20 == 13:
        batches[0] = G.enlarge(s, rng)
    return {"spec": s, "seed": G.rs(rng), "batches": batches}


def run(case, obs):
    s = case["spec"]
    rng = np.random.default_rng(case["seed"])
    build = G.build_ti if s["kind"] == "ti" else G.build_mps
    ser, par = build(s), build(dict(s, par=True))
    par.load_state_dict(ser.state_dict())
    for batch in case["batches"]:
        if s["kind"] == "ti":
            if s["d"] == 2 and rng.random() < 0.5:
                t = torch.tensor(rng.uniform(size=(batch, s["n"]))).to(G.F[s["dtype"]])
            else:
                t = torch.tensor(rng.normal(size=(batch, s["n"], s["d"]))).to(G.F[s["dtype"]])
            w = G.ti_weights(t, s)
        else:
            t, w = G.mps_input({**s, "rows_differ": True}, rng, batch)
        W = rng.normal(size=(batch, s["o"]))
        res = []
        for m, tag in ((ser, "serial"), (par, "parallel")):
            m.zero_grad(set_to_none=True)
            x = t.clone().requires_grad_(t.numel() > 0)
            out = m(x)
            need(tuple(out.shape) == (batch, s["o"]), "wrong output shape", tag=tag, got=tuple(out.shape))
            if out.requires_grad:
                (out * torch.tensor(W).to(out.dtype)).sum().backward()
            if s["kind"] == "ti":
                want, gx, vals = tref.ti_grads(m, s, w, W)
                named = {k: (p, want[k]) for k, p in m.named_parameters()}
                ref, err = G.ti_ref(m, s, w)
            else:
                want, gx, vals = tref.net_grads(m, s, w, W)
                named = {}
                for k, p in m.named_parameters():
                    if id(p) in want:
                        named[k] = (p, want[id(p)])
                    else:
                        need(p.grad is None or not p.grad.any(), "gradient on an inactive core", name=k)
                need(len(named) == len(want), "active cores are not parameters")
                ref, err = G.mps_ref(m, s, w)
            G.check_out(out, ref, err, f"{tag} output")
            obs.hit("outputs", out.numel())
            gr = {}
            for k, (p, (g, tg)) in named.items():
                got = np.zeros(p.shape) if p.grad is None else refs.wide(p.grad)
                refs.close(got, g.reshape(p.shape), tg.reshape(p.shape), f"{tag} gradient of {k}")
                gr[k] = got
                obs.hit("gradients")
            if x.grad is not None and s.get("path") is None and t.ndim == 3:
                refs.close(refs.wide(x.grad), gx[0], gx[1], f"{tag} gradient of the input")
                obs.hit("gradients")
            res.append((refs.wide(out), refs.wide(x.grad) if x.grad is not None else None, err))
        refs.close(res[0][0], res[1][0], 2 * res[0][2], "serial and parallel outputs")
        if res[0][1] is not None:
            sc = np.abs(gx[1]).max() * 4
            refs.close(res[0][1], res[1][1], np.full(res[0][1].shape, sc * s["n"]), "serial and parallel input gradients")
    obs.hit("even_lengths" if s["n"] % 2 == 0 else "odd_lengths")
    obs.state(*[str(s.get(k)) for k in ("kind", "n", "o", "D", "d", "pbc", "label", "bias", "adaptive", "path")])
    if s["n"] > 1 and s["D"] > 1:
        obs.nontrivial(case["seed"])
