"""C03: default, slim and parallel evaluation of probabilistic models agree (values, gradients, acceptance)."""
import numpy as np
import torch

from rtm import gen as G
from rtm import refs, tref
from rtm.core import Skip, fail, need

CASES = {"quick": 1350, "thorough": 20000}
RULE = ("random probabilistic model and input (symbols of several integer types, float/complex vectors, embeddings), "
        "evaluated with all option combinations; log probabilities compared pairwise and with the reference, loss "
        "gradients of all parameters and float inputs compared with a double-precision reference; plus malformed "
        "inputs offered to each option; non-trivial if gradients of at least two options were decided")
MIN = {"gradients": 3720, "gradients_ill_conditioned": 54, "malformed_offered": 14546, "negative_symbols": 502,
       "slim_bias_refused": 216, "values": 27856}


def gen(rng, tier, idx):
    s = G.prob_spec(rng, dtypes=("f32", "f64", "f64"), nmax=7)
    if idx % 12 == 5:
        s.update(n=G.ri(rng, 8, 33), emb=None, dist="normal")
    s["inp"] = G.pick(rng, ["sym", "sym", "vec", "prob", "cvec", "onehotvec"])
    large = G.enlarge(s, rng) if idx % 20 == 13 else None
    return {"spec": s, "seed": G.rs(rng), "batch": large or G.pick(rng, [1, 1, 2, 5, 9]),
            "int": G.pick(rng, ["int64", "int64", "int32"]), "neg": bool(rng.random() < 0.2), "strided": bool(rng.random() < 0.25)}


OPTS = [(False, False), (False, True), (True, False), (True, True)]


def run(case, obs):
    s = case["spec"]
    rng = np.random.default_rng(case["seed"])
    model, emb = G.build_prob(s)
    t, w = G.prob_input(s, rng, case["batch"], emb)
    if not t.is_floating_point() and not t.is_complex() and case["int"] == "int32" and emb is None:
        t = t.to(torch.int32)
    if case.get("neg") and not t.is_floating_point() and not t.is_complex() and emb is None and t.numel():
        # symbols counted from the end of the alphabet, as in all indexing
        t = torch.where(torch.tensor(rng.random(tuple(t.shape)) < 0.3), t - s["d"], t)
        obs.hit("negative_symbols", int((t < 0).sum()))
    if case["strided"]:
        perm = list(range(t.ndim))[::-1]
        t = t.permute(perm).contiguous().permute(perm)
    # parallel evaluation overrides slim evaluation, which alone refuses bias matrices
    opts = [o for o in OPTS if not (o == (True, False) and s["bias"])]
    ref = G.ProbRef(model, s, emb)
    if s["bias"]:
        try:
            model(t, slim_eval=True)
        except Exception:
            obs.hit("slim_bias_refused")
        else:
            fail("slim evaluation of a model with bias matrix did not raise")
    malformed(model, s, emb, rng, obs, ref.usable)
    if not ref.usable:
        raise Skip("norm not determined")
    vals, tol = [], None
    for slim, par in opts:
        got = model(t, slim_eval=slim, parallel_eval=par)
        _, tol = ref.check(got, t, w, what=f"log probability (slim={slim}, parallel={par})")
        vals.append(refs.wide(got))
        obs.hit("values", got.numel())
    for v, o in zip(vals[1:], opts[1:]):
        fin = np.isfinite(v) & np.isfinite(vals[0]) & np.isfinite(tol) & (tol < 0.5)
        refs.close(v[fin], vals[0][fin], 2 * tol[fin], f"options {o} and {opts[0]}")
    # gradients
    want, cond, decided = None, None, 0
    if s["n"] > 40:
        return
    _, wantp, wantm, wantx, cond = tref.prob_grads(model, s, t, w, emb)
    if not cond < (1e3 if s["dtype"] == "f32" else 1e9):
        obs.hit("gradients_ill_conditioned")
        return
    for slim, par in opts:
        xin = t.clone()
        floaty = emb is None and (xin.is_floating_point() or xin.is_complex())
        if floaty:
            xin.requires_grad_(True)
        model.zero_grad(set_to_none=True)
        model.loss(xin, slim_eval=slim, parallel_eval=par).backward()
        own = {k: p for k, p in model.named_parameters() if "." not in k}
        for k, p in own.items():
            g, tg = wantp[k]
            got = np.zeros(p.shape) if p.grad is None else refs.wide(p.grad)
            refs.close(got, g, tg, f"gradient of {k} (slim={slim}, parallel={par})")
            if (tg < 0.05 * np.abs(g).max()).any():
                decided += 1
                obs.hit("gradients")
        if floaty and s["n"]:
            got = np.zeros(xin.shape) if xin.grad is None else refs.wide(xin.grad)
            g, tg = wantx
            refs.close(got, g, tg, f"gradient of the input (slim={slim}, parallel={par})")
            obs.hit("gradients")
        if emb is not None and emb.trainable:
            for p, (g, tg) in zip(emb.module.parameters(), wantm):
                got = np.zeros(p.shape) if p.grad is None else refs.wide(p.grad)
                refs.close(got, g, np.full(g.shape, tg), f"gradient of the embedding (slim={slim}, parallel={par})")
                obs.hit("gradients")
    obs.state(s["kind"], s["n"], s["d"], s["D"], s["cplx"], s["bias"], s.get("inp"), case["batch"],
              s["emb"] and s["emb"]["kind"])
    if decided >= 2:
        obs.nontrivial(case["seed"])


def malformed(model, s, emb, rng, obs, usable):
    n, d = s["n"], s["d"]
    bad = []
    if emb is None:
        x = rng.integers(0, d, size=(3, n))
        bad.append(("longer", torch.tensor(rng.integers(0, d, size=(3, n + 1)))))
        if n > 1:
            bad.append(("shorter", torch.tensor(x[:, :-1])))
        if n:
            y = x.copy()
            y[int(rng.integers(3)), int(rng.integers(n))] = d
            bad.append(("symbol", torch.tensor(y)))
            bad.append(("float symbols", torch.tensor(x).float()))
        bad.append(("size", torch.tensor(rng.normal(size=(3, n, d + 1))).to(G.F[s["dtype"]])))
        if d > 1:
            bad.append(("size1", torch.tensor(rng.normal(size=(3, n, 1))).to(G.F[s["dtype"]])))
        bad.append(("order4", torch.tensor(rng.normal(size=(2, n, d, 2))).to(G.F[s["dtype"]])))
        bad.append(("order1", torch.tensor(x[0])))
        bad.append(("order0", torch.tensor(0)))
    bad.append(("no rows", torch.zeros((0, n), dtype=torch.long if emb is None or not emb.cont else G.F[s["dtype"]])))
    if not usable:
        return
    for what, x in bad:
        verdicts = {}
        for slim, par in OPTS:
            if slim and not par and s["bias"]:
                continue
            try:
                out = model(x, slim_eval=slim, parallel_eval=par)
                verdicts[slim, par] = ("accepted", tuple(out.shape))
            except Exception as e:
                verdicts[slim, par] = ("refused",)
            obs.hit("malformed_offered")
        need(len(set(verdicts.values())) == 1, "options differ in accepting an input", what=what, verdicts=verdicts)
