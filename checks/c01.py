"""C01: log probabilities vs the Born rule, over histories of parameter updates."""
import numpy as np
import torch

from rtm import gen as G
from rtm import refs
from rtm.core import need

CASES = {"quick": 2400, "thorough": 40000}
RULE = ("random model configuration (kind, n, d, D, real/complex, bias, init, embedding, precision), parameter "
        "distribution, input form, then 2-5 steps of evaluate / overwrite, freeze or thaw parameters / SGD or Adam steps / load "
        "state / make a value impossible; every evaluated row is compared with a float64 product of the current cores; a case is non-trivial "
        "if at least one row was decided with relative amplitude error below 0.5 and n*d*D > 1")
MIN = {"evals": 2196, "frozen": 531, "impossible": 30, "rows_decided": 33615, "updates": 2170, "zero_norm_models": 7}


def gen(rng, tier, idx):
    s = G.prob_spec(rng)
    if idx % 25 == 7:
        s.update(n=G.ri(rng, 20, 80 if tier == "quick" else 400), D=G.ri(rng, 2, 16), d=G.ri(rng, 2, 12), emb=None)
    if idx % 25 == 12:
        s.update(n=G.ri(rng, 1, 4), D=G.ri(rng, 1, 4), d=G.pick(rng, [100, 257, 300, 700]), emb=None)
    large = G.enlarge(s, rng) if idx % 20 == 13 else None
    if s["emb"] is None:
        s["inp"] = G.pick(rng, ["sym", "sym", "sym", "vec", "prob", "onehotvec", "cvec"])
    steps = []
    for _ in range(G.ri(rng, 2, 5)):
        steps.append({"op": G.pick(rng, ["eval", "eval", "rand", "sgd", "adam", "load", "freeze"]), "seed": G.rs(rng),
                      "slim": bool(rng.random() < 0.3), "par": bool(rng.random() < 0.3)})
    if idx % 4 == 2:
        steps.append({"op": "zero", "seed": G.rs(rng)})
    steps.append({"op": "eval", "seed": G.rs(rng), "slim": False, "par": False})
    return {"spec": s, "steps": steps, "seed": G.rs(rng), "batch": large or (
        G.pick(rng, [1, 2, 3, 7, G.ri(rng, 1, 12)]) if idx % 25 != 3 else 200)}


def run(case, obs):
    s = case["spec"]
    model, emb = G.build_prob(s)
    decided = 0
    for st in case["steps"]:
        rng = np.random.default_rng(st["seed"])
        op = st["op"]
        if op == "eval":
            batch = max(1, case["batch"] + int(rng.integers(-1, 2)))
            t, w = G.prob_input(s, rng, batch, emb)
            slim = st["slim"] and not s["bias"]
            ref = G.ProbRef(model, s, emb)
            if not ref.usable:
                obs.hit("zero_norm_models")
                continue
            grad = rng.random() < 0.5
            with torch.set_grad_enabled(bool(grad)):
                got = model(t, slim_eval=slim, parallel_eval=st["par"])
            before = obs.count["rows_decided"]
            val, tol = ref.check(got, t, w, obs=obs)
            decided += obs.count["rows_decided"] - before
            obs.hit("evals")
            loss = model.loss(t, slim_eval=slim, parallel_eval=st["par"])
            need(loss.ndim == 0, "loss is not a scalar", shape=tuple(loss.shape))
            # rows of probability zero count as well
            if bool((got == -np.inf).any()):
                need(not bool((got.isnan() | (got == np.inf)).any()) and float(loss.detach()) == np.inf,
                     "loss of a batch with impossible rows is not infinite", loss=float(loss.detach()))
                obs.hit("impossible")
            if np.isfinite(val).all() and np.isfinite(tol).all():
                refs.close(refs.wide(loss), np.array(-val.mean()), np.array(tol.mean() + 1e-5 * np.abs(val).mean()
                           if s["dtype"] == "f32" else tol.mean() + 1e-12 * np.abs(val).mean()), "loss")
        elif op == "rand":
            G.set_params(model, "normal", rng)
            if emb is not None and emb.trainable:
                with torch.no_grad():
                    for p in emb.module.parameters():
                        p.add_(G.rand_like(p, rng, 0.3))
            obs.hit("updates")
        elif op in ("sgd", "adam"):
            opt = (torch.optim.SGD if op == "sgd" else torch.optim.Adam)(model.parameters(), lr=0.02)
            t, w = G.prob_input(s, rng, 4, emb)
            if G.ProbRef(model, s, emb).usable:
                G.train_steps(model, opt, lambda: model.loss(t), 2)
            obs.hit("updates")
        elif op == "freeze":
            G.freeze(model, rng)
            obs.hit("frozen")
        elif op == "zero":
            # one value becomes impossible (at one site)
            if not s["bias"] and s["d"] > 1:
                with torch.no_grad():
                    core = model.core_tensors if s["kind"] == "unif" else model.core_tensors[int(rng.integers(s["n"]))]
                    core[int(rng.integers(s["d"]))] = 0
                obs.hit("updates")
        elif op == "load":
            sd = {k: v.clone() + 0.1 * G.rand_like(v, rng) for k, v in model.state_dict().items()}
            model.load_state_dict(sd)
            obs.hit("updates")
    obs.state(s["kind"], s["n"], s["d"], s["D"], s["cplx"], s["bias"], s["dist"], s["dtype"],
              s["emb"]["kind"] if s["emb"] else s.get("inp"), case["batch"])
    if decided and s["n"] * s["d"] * s["D"] > 1:
        obs.nontrivial(case["seed"], s["seed"])
