"""C13: an optimizer built once keeps training an adaptive MPS across merge-state changes."""
import copy

import numpy as np
import torch

from rtm import gen as G
from rtm import refs, tref
from rtm.core import need

CASES = {"quick": 1000, "thorough": 10000}
RULE = ("random adaptive MPS with one optimizer (or a list of parameters) made before the first call, trained through "
        "several merge-state changes, in some cases going back to earlier states by state dictionaries; at every training step the identities of all parameters, of the tensors in use and "
        "of the optimizer's parameters are compared, every gradient is compared with a double-precision reference "
        "(inactive cores must get none), and after the step the parameters must have moved by the optimizer's rule and "
        "the output must be that of the moved cores; in double precision the loss change for a small step must match "
        "the gradient; non-trivial if steps were decided in both merge states after a change")
MIN = {"changes": 1759, "descents": 111, "gradients": 13488, "moved_cores": 6392, "restored": 167, "steps": 2920}


def gen(rng, tier, idx):
    s = G.mps_spec(rng, adaptive=True, nmax=7, Dmax=4, omax=4, dmax=3, dtypes=("f32", "f64"))
    s["cutoff"] = G.pick(rng, [0.0, 1e-10, 1e-6, 1e-3, 0.05])
    s["thresh"] = G.pick(rng, [2, 4, 6, 9])
    s["dist"] = G.pick(rng, ["init", "normal", "eye", "eye", "sparse"])
    if rng.random() < 0.3:
        s["init_std"] = G.pick(rng, [1e-2, 0.3])
    return {"spec": s, "seed": G.rs(rng), "steps": G.ri(rng, 4, 16 if tier == "thorough" else 9),
            "opt": G.pick(rng, ["sgd", "sgd", "momentum", "adam", "manual"]), "lr": G.pick(rng, [0.3, 0.03, 1e-3]),
            "back": bool(rng.random() < 0.4)}


def bend(model, s, w, W, old, plist, pred):
    """|second-order change| of the reference function between the old and the current parameters"""
    cur = {id(p): p.detach().clone() for p in plist}
    vals = []
    with torch.no_grad():
        for lam in (0.0, 1.0):
            for p in plist:
                p.copy_(old[id(p)] + lam * (cur[id(p)] - old[id(p)]))
            vals.append(float((G.mps_ref(model, s, w)[0] * W).sum()))
        for p in plist:
            p.copy_(cur[id(p)])
    return abs(vals[1] - vals[0] - pred)


def run(case, obs):
    s = case["spec"]
    rng = np.random.default_rng(case["seed"])
    model = G.build_mps(s)
    ids = {id(p) for p in model.parameters()}
    plist = list(model.parameters())
    lr = case["lr"]
    opt = {"sgd": lambda: torch.optim.SGD(plist, lr=lr), "momentum": lambda: torch.optim.SGD(plist, lr=lr, momentum=0.9),
           "adam": lambda: torch.optim.Adam(plist, lr=lr), "manual": lambda: None}[case["opt"]]()
    states = set()
    kept = []
    fed = changes = 0
    for step in range(case["steps"]):
        batch = G.pick(rng, [1, 2, 3, 5])
        t, w = G.mps_input(s, rng, batch)
        # training goes on from an earlier state, possibly one with the other merge state
        if kept and case.get("back") and rng.random() < 0.25:
            fed, sd = kept[int(rng.integers(len(kept)))]
            model.load_state_dict(sd)
            obs.hit("restored")
        elif rng.random() < 0.4:
            kept.append((fed, copy.deepcopy(model.state_dict())))
        due = fed >= s["thresh"]
        before = [id(c) for _, c, _ in G.net_nodes(model)]
        try:
            out = model(t)
        except RuntimeError as e:
            if due and "cutoff" in str(e):
                obs.hit("everything_truncated")
                break
            raise
        fed += batch
        if due:
            fed -= s["thresh"]
        nodes = G.net_nodes(model)
        active = [c for _, c, _ in nodes]
        if [id(c) for c in active] != before:
            changes += 1
            obs.hit("changes")
        need({id(p) for p in model.parameters()} == ids, "the set of parameter objects changed")
        sd = {v.data_ptr() for v in model.state_dict().values()}
        need(all(p.data_ptr() in sd for p in model.parameters() if p.numel()), "parameter missing in the state dict")
        need(all(id(c) in ids for c in active), "a tensor in use is not one of the parameters")
        need(all(isinstance(c, torch.nn.Parameter) and c.is_leaf and c.requires_grad for c in active),
             "a tensor in use is not a trainable leaf")
        W = rng.normal(size=tuple(out.shape)) / max(1, out.numel())
        need(out.requires_grad, "output is detached from the parameters")
        for p in plist:
            p.grad = None
        (out * torch.tensor(W).to(out.dtype)).sum().backward()
        want, _, vals = tref.net_grads(model, s, w, W)
        need(set(want) == {id(c) for c in active}, "reference and model use different cores")
        total = 0.0
        for p in plist:
            g = np.zeros(tuple(p.shape)) if p.grad is None else refs.wide(p.grad)
            if id(p) in want:
                refs.close(g, want[id(p)][0].reshape(g.shape), want[id(p)][1].reshape(g.shape), "gradient of a core in use")
                total += float((g**2).sum())
            else:
                need(not g.any(), "gradient on a core not in use")
            obs.hit("gradients")
        if not np.isfinite(total) or total > 1e8:
            break
        obs.hit("steps")
        # an exact prediction of the step, for the optimizers without hidden state across parameters
        old = {id(p): p.detach().clone() for p in plist}
        scale = min(1.0, 1.0 / (total**0.5 + 1e-30))
        for p in plist:
            if p.grad is not None:
                p.grad.mul_(scale)
        if opt is not None:
            opt.step()
        else:
            with torch.no_grad():
                for p in plist:
                    if p.grad is not None:
                        p -= lr * p.grad
        for p in plist:
            moved = not torch.equal(p.detach(), old[id(p)])
            g = p.grad
            if case["opt"] in ("sgd", "manual"):
                exp = old[id(p)] if g is None else old[id(p)] - lr * g
                err = float((p.detach() - exp).abs().max()) if p.numel() else 0.0
                top = float(old[id(p)].abs().max()) + lr
                need(err <= 8 * G.eps_s(s) * top, "a parameter did not move by the optimizer's rule", err=err)
            if id(p) in want and g is not None and float(g.abs().max()) * lr > 1e-5 * (1 + float(p.detach().abs().max())):
                need(moved, "an optimizer step left a core in use unchanged")
                obs.hit("moved_cores")
        # the same cores (changed values) are used next
        if fed < s["thresh"]:
            with torch.no_grad():
                out2 = model(t)
            fed += batch
            ref, err = G.mps_ref(model, s, w)
            G.check_out(out2, ref, err, "output after the step")
            # derivative of the loss along the step: difference quotient of the outputs against the gradient
            if case["opt"] in ("sgd", "manual") and s["dtype"] == "f64" and lr <= 1e-3:
                delta = float(((refs.wide(out2) - refs.wide(out.detach())) * W).sum())
                pred = -lr * scale * total
                noise = float((err * np.abs(W)).sum()) * 4
                if abs(pred) > 100 * noise and lr * scale * total**0.5 < 1e-3:
                    need(delta < 0.5 * pred or abs(delta - pred) < 0.5 * abs(pred) + bend(model, s, w, W, old, plist, pred),
                         "the loss did not change as its gradient predicts", delta=delta, predicted=pred)
                    obs.hit("descents")
        if changes:
            states.add(tuple(id(c) for c in active))
    obs.state(*[str(s.get(k)) for k in ("n", "o", "D", "d", "pbc", "label", "cutoff", "thresh")], case["opt"])
    if len(states) == 2:
        obs.nontrivial(case["seed"])
