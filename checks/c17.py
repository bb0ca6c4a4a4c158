"""C17: trainable embeddings are trained jointly and the normalization follows their current values."""
import copy

import numpy as np
import torch

from rtm import gen as G
from rtm import refs, tref
from rtm.core import Skip, fail, need

CASES = {"quick": 750, "thorough": 15000}
RULE = ("random probabilistic model with a trainable embedding (table, polynomial, MLP, library MLP; real/complex; "
        "sometimes shared by two models), driven through a history of optimizer steps, in-place changes, state "
        "dictionary loads, precision changes, deep copies, freezing and mode switches; after every operation parameter "
        "membership, log norm, log probabilities and embedding gradients are compared with references computed from the "
        "embedding module's current values; non-trivial if the embedding changed and the log norm moved visibly")
MIN = {"gradients": 2107, "joint_steps": 200, "log_norm_moved": 563, "log_norms": 1737, "memberships": 3146,
       "operations": 1191, "rows_decided": 5383, "shared": 81, "without_gradients": 395}


def gen(rng, tier, idx):
    s = G.prob_spec(rng, emb=False, nmax=5, dmax=4, Dmax=4, dtypes=("f32", "f64"))
    s["emb"] = G.emb_spec(rng, s["d"], s["cplx"], trainable=True)
    if s["n"] == 0:
        s["n"] = 2
    ops = ["sgd", "adam", "sgd", "edit", "edit_emb", "edit_data", "load", "double", "copy", "freeze", "mode", "nograd", "evalonly"]
    return {"spec": s, "seed": G.rs(rng), "ops": [G.pick(rng, ops) for _ in range(G.ri(rng, 2, 9 if tier == "thorough" else 5))],
            "shared": bool(rng.random() < 0.25), "quiet": bool(rng.random() < 0.3)}


def judge(model, emb, s, rng, obs, what, last, grad=True):
    with torch.set_grad_enabled(grad):
        return judge_(model, emb, s, rng, obs, what, last, grad)


def judge_(model, emb, s, rng, obs, what, last, grad):
    eps = G.eps_s(s)
    own = {id(p): k for k, p in model.named_parameters()}
    for p in emb.module.parameters():
        need(id(p) in own, "a parameter of the embedding is not a parameter of the model", after=what)
        need(own[id(p)] in model.state_dict(), "a parameter of the embedding is not in the state dictionary", after=what)
        need(torch.equal(model.state_dict()[own[id(p)]], p.detach()), "state dictionary holds old embedding values", after=what)
        obs.hit("memberships")
    ref = G.ProbRef(model, s, emb, emb.module)
    if not ref.usable:
        obs.hit("undetermined")
        return last
    # the normalization
    norm = lambda: model.log_norm() if s["kind"] == "fixed" else model.log_norm(s["n"])
    got = norm()
    g = float(refs.wide(got))
    with torch.set_grad_enabled(not grad and rng.random() < 0.3):
        g2 = float(refs.wide(norm()))
    tol = ref.Zrel * 2 + 64 * eps * (1 + abs(ref.logZ))
    need(abs(g - ref.logZ) <= tol, "log norm does not follow the embedding", got=g, want=ref.logZ, tol=tol, after=what)
    need(abs(g2 - ref.logZ) <= tol, "log norm asked for again does not follow the embedding", got=g2, want=ref.logZ, tol=tol, after=what)
    obs.hit("log_norms")
    if last is not None and abs(g - last) > 1e-3 + 4 * tol:
        obs.hit("log_norm_moved")
    t, w = G.prob_input(s, rng, 3, emb)
    slim = bool(rng.random() < 0.5) and not s["bias"]
    out = model(t, slim_eval=slim)
    ref.check(out, t, w, what=f"log probability after {what}", obs=obs)
    # the gradients reach the embedding
    if grad and all(p.requires_grad for p in model.parameters()):
        _, wantp, wantm, _, cond = tref.prob_grads(model, s, t, w, emb)
        if cond < (1e3 if s["dtype"] == "f32" else 1e8):
            model.zero_grad(set_to_none=True)
            model.loss(t, slim_eval=slim).backward()
            for p, (gr, tg) in zip(emb.module.parameters(), wantm):
                gg = np.zeros(tuple(p.shape)) if p.grad is None else refs.wide(p.grad)
                refs.close(gg, gr, np.full(gr.shape, tg), f"gradient of the embedding after {what}")
                obs.hit("gradients")
    return g


def run(case, obs):
    s = dict(case["spec"])
    rng = np.random.default_rng(case["seed"])
    model, emb = G.build_prob(s)
    others = []
    if case["shared"]:
        from torchmps import ProbMPS

        torch.manual_seed(case["seed"])
        torch.set_default_dtype(G.F[s["dtype"]])
        s2 = dict(s, kind="fixed", n=2, bias=False)
        m2 = ProbMPS(2, s["d"], s["D"], complex_params=s["cplx"], **emb.kwargs())
        torch.set_default_dtype(torch.float32)
        others.append((m2, s2))
        obs.hit("shared")
    optims = {"sgd": torch.optim.SGD(model.parameters(), lr=0.1), "adam": torch.optim.Adam(model.parameters(), lr=0.05)}
    last = judge(model, emb, s, rng, obs, "construction", None)
    first, moved, grad = last, False, not case.get("quiet")
    for op in case["ops"]:
        obs.hit("operations")
        before = [p.detach().clone() for p in emb.module.parameters()]
        if op in optims:
            if not G.ProbRef(model, s, emb, emb.module).usable:
                continue
            t, w = G.prob_input(s, rng, 4, emb)
            vals = G.ProbRef(model, s, emb, emb.module).logp(t, w)[0]
            if not np.isfinite(vals).all():
                continue
            G.train_steps(model, optims[op], lambda: model.loss(t), 2)
            gr = [p.grad for p in emb.module.parameters() if p.requires_grad]
            if gr and any(x is not None and x.abs().max() > 1e-4 for x in gr):
                if op == "sgd":
                    ch = any(not torch.equal(a, b) for a, b in zip(before, emb.module.parameters()))
                    need(ch, "an optimizer step did not move the embedding")
                obs.hit("joint_steps")
        elif op == "edit":
            G.set_params(model, "normal", rng)
        elif op == "edit_data":
            with torch.no_grad():
                for p in emb.module.parameters():
                    G.put(p, p * G.pick(rng, [0.5, 2.0]) + G.rand_like(p, rng, 0.2))
        elif op == "edit_emb":
            with torch.no_grad():
                data = rng.random() < 0.5
                for p in emb.module.parameters():
                    (p.data if data else p).mul_(G.pick(rng, [0.5, 2.0])).add_(G.rand_like(p, rng, 0.2))
        elif op == "load":
            sd = {k: v.clone() if not (v.is_floating_point() or v.is_complex()) else v + G.rand_like(v, rng, 0.3)
                  for k, v in model.state_dict().items()}
            model.load_state_dict(sd)
            for (k, p) in model.named_parameters():
                need(torch.equal(p.detach(), sd[k]), "loaded value did not arrive", name=k)
        elif op == "double":
            if s["cplx"] or any(p.is_complex() for p in model.parameters()):
                continue
            model.double()
            if not all(p.dtype == torch.float64 for p in emb.module.parameters()):
                fail("the embedding was not converted with the model")
            for m, s2 in others:
                m.double()
                s2["dtype"] = "f64"
            s["dtype"] = "f64"
            optims = {"sgd": torch.optim.SGD(model.parameters(), lr=0.1), "adam": torch.optim.Adam(model.parameters(), lr=0.05)}
        elif op == "copy":
            m2 = copy.deepcopy(model)
            with torch.no_grad():
                for p in m2.parameters():
                    p.add_(0.5)
            need(all(torch.equal(a, b) for a, b in zip(before, emb.module.parameters())), "changing a copy changed the embedding")
        elif op == "freeze":
            flag = bool(rng.random() < 0.5)
            for p in emb.module.parameters():
                p.requires_grad_(flag)
        elif op == "mode":
            model.train(not model.training)
        elif op == "nograd":
            with torch.no_grad():
                last = judge_nograd(model, emb, s, rng, obs, last)
            grad = not grad
        elif op == "evalonly":
            t, w = G.prob_input(s, rng, 2, emb)
            if G.ProbRef(model, s, emb, emb.module).usable:
                model(t)
        last = judge(model, emb, s, rng, obs, op, last, grad)
        obs.hit("without_gradients", int(not grad))
        if first is not None and last is not None and abs(last - first) > 1e-3:
            moved = True
        for m, s2 in others:
            judge(m, emb, s2, rng, obs, f"{op} (other model)", None)
    obs.state(s["kind"], s["n"], s["d"], s["D"], s["emb"]["kind"], str(case["ops"]))
    if moved:
        obs.nontrivial(case["seed"])


def judge_nograd(model, emb, s, rng, obs, last):
    ref = G.ProbRef(model, s, emb, emb.module)
    if ref.usable:
        t, w = G.prob_input(s, rng, 2, emb)
        ref.check(model(t), t, w, what="log probability without gradients", obs=obs)
    return last
