"""C08: TI_MPS against the repeated-core network; lists of sequences, padding, refusals."""
import numpy as np
import torch

from rtm import gen as G
from rtm import refs
from rtm.core import fail, need

CASES = {"quick": 3000, "thorough": 40000}
RULE = ("random TI_MPS (ends, biases, evaluation mode, precision) fed stacked raw and pre-embedded batches and lists of "
        "sequences of equal or different lengths (0..12), raw or pre-embedded, with default or custom feature map; each "
        "row compared with the NumPy reference of that sequence alone, with the library's output for it alone, and with "
        "the stacked tensor; unequal lengths offered to models without fixed bias; non-trivial if a list had at least "
        "two different lengths or a batch of length >= 2")
MIN = {"equal_lists": 670, "frozen": 120, "other_types": 276, "outputs_decided": 113188, "padded_rows": 2429,
       "ragged_lists": 985, "refused_unequal": 809, "rows": 8842}


def gen(rng, tier, idx):
    s = G.ti_spec(rng, Dmax=5)
    if idx % 20 == 11:
        large = G.enlarge(s, rng, axes=("batch", "D", "d", "o"), budget=1e6)
        s["o"] = min(s["o"], s["D"]) if s["fixed_ends"] else s["o"]
        return {"spec": s, "seed": G.rs(rng), "calls": ["list", "eqlist"], "top": 4, "B": large}
    if idx % 20 == 4:
        # long sequences, of the mildest models
        s.update(D=G.ri(rng, 1, 3), dist=G.pick(rng, ["init", "eye"]), bias=True, fixed_bias=True, fixed_ends=False)
        return {"spec": s, "seed": G.rs(rng), "calls": [G.pick(rng, ["list", "eqlist", "batch"]), "list"], "top": G.pick(rng, [70, 140, 300])}
    return {"spec": s, "seed": G.rs(rng), "calls": [G.pick(rng, ["list", "list", "eqlist", "batch", "set", "fmap"])
                                                 for _ in range(G.ri(rng, 2, 4))] + ["list"],
            "top": G.pick(rng, [2, 4, 6, 12])}


def fmap_poly(d):
    return lambda x: torch.stack([1.0 + 0 * x] + [x.clone() ** k - 0.3 * k for k in range(1, d)])


def run(case, obs):
    s = case["spec"]
    rng = np.random.default_rng(case["seed"])
    model = G.build_ti(s)
    fdt = G.F[s["dtype"]]
    can_pad = s["bias"] and s["fixed_bias"]
    if s["bias"]:
        need(model.bias_mat is not None, "no bias matrix")
        isp = any("bias_mat" in k for k, _ in model.named_parameters())
        need(isp != s["fixed_bias"], "bias matrix is trainable exactly if it is not fixed")
    train = [p for p in model.parameters() if p.requires_grad]
    custom = False
    nontriv = False

    def embed(x):
        if x.ndim == 2:
            return refs.wide(x)
        xw = refs.wide(x)
        if custom:
            return np.stack([1.0 + 0 * xw] + [xw**k - 0.3 * k for k in range(1, s["d"])], -1)
        return np.stack([xw, 1 - xw], -1)

    def one(x):
        w = embed(x)
        return G.ti_ref(model, s, w[None])

    for call in case["calls"]:
        if call == "set":
            if rng.random() < 0.2:
                G.freeze(model, rng, train)
                obs.hit("frozen")
            elif rng.random() < 0.5:
                G.set_net_params(model, G.pick(rng, ["normal", "eye"]), rng)
            elif any(p.requires_grad for p in model.parameters()):
                t = torch.tensor(rng.normal(size=(3, 4, s["d"]))).to(fdt)
                G.train_steps(model, torch.optim.Adam(model.parameters(), lr=0.05), lambda: model(t).pow(2).mean(), 2)
            continue
        if call == "fmap":
            model.register_feature_map(fmap_poly(s["d"]))
            custom = True
            continue
        raw = bool((s["d"] == 2 or custom) and rng.random() < 0.6)

        def seq(n):
            v = rng.uniform(size=n) if raw else rng.normal(size=(n, s["d"]))
            if case["top"] < 50:
                v = v * G.pick(rng, [1.0, 1.0, -1.0, 2.5])
            if kind:
                # raw values of another type, which cannot always hold 1 - x (or not exactly)
                v = rng.uniform(size=n) * 3 if kind[0] == "f" else rng.integers(0, 2 if kind == "bool" else 4, size=n)
                return torch.tensor(v).to(getattr(torch, kind))
            return torch.tensor(v).to(fdt)

        kind = ""
        if raw and not custom and case["top"] < 20 and rng.random() < 0.25:
            kind = G.pick(rng, ["uint8", "int8", "int32", "int64", "bool", "float16", "float32", "float64"])
            obs.hit("other_types")
        B = case.get("B") or G.pick(rng, [1, 2, 3, 5])
        top = case["top"]
        if call == "list":
            lens = [int(x) for x in rng.integers(0, top + 1, size=B)]
        else:
            lens = [int(rng.integers(0, top + 1))] * B
        seqs = [seq(n) for n in lens]
        if call == "batch":
            data = torch.stack(seqs)
        else:
            data = list(seqs)
        if len(set(lens)) > 1 and not can_pad:
            try:
                model(data)
            except Exception:
                obs.hit("refused_unequal")
                continue
            fail("sequences of different lengths were accepted without a fixed bias")
        keep = [x.clone() for x in seqs]
        grad = bool(rng.random() < 0.5)
        with torch.set_grad_enabled(grad):
            out = model(data)
        need(isinstance(out, torch.Tensor) and tuple(out.shape) == (B, s["o"]), "wrong output shape")
        need(out.dtype == fdt, "output precision", got=str(out.dtype))
        if call != "batch":
            need(len(data) == B and all(a is b for a, b in zip(data, seqs)), "the given list was changed")
        need(all(torch.equal(a, b) for a, b in zip(keep, seqs)), "the given sequences were changed")
        for i, x in enumerate(seqs):
            ref, err = one(x)
            G.check_out(out[i : i + 1], ref, err, f"output of sequence {i} (lengths {lens[:20]}, {call})", obs)
            if B > 30 and rng.random() > 0.05:
                continue
            with torch.no_grad():
                alone = model([x]) if rng.random() < 0.5 else model(x[None])
            G.check_out(alone, ref, err, "output of the sequence alone", obs)
            obs.hit("rows")
            obs.hit("padded_rows", int(len(x) < max(lens)))
        if call == "list" and len(set(lens)) > 1:
            obs.hit("ragged_lists")
            nontriv = True
        if call == "eqlist":
            obs.hit("equal_lists")
            with torch.no_grad():
                st = model(torch.stack(seqs))
            ref = np.concatenate([one(x)[0] for x in seqs])
            err = np.concatenate([one(x)[1] for x in seqs])
            G.check_out(st, ref, err, "output of the stacked tensor", obs)
            refs.close(refs.wide(out), refs.wide(st), 2 * err, "list of equal-length sequences vs stacked tensor")
        nontriv |= max(lens) >= 2
        obs.state(call, tuple(lens), raw, s["par"], s["bias"], s["fixed_bias"], s["D"], s["o"], s["d"])
    if nontriv:
        obs.nontrivial(case["seed"])
