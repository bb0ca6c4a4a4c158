"""C02: total probability is one, by enumeration of all sequences or quadrature."""
import itertools

import numpy as np
import torch

from rtm import gen as G
from rtm import refs
from rtm.core import Skip, fail, need

CASES = {"quick": 700, "thorough": 15000}
RULE = ("random model small enough to enumerate every sequence of its length (at most 1500), or with a continuous "
        "embedding integrated with the trapezoid grid (length 1) or Gauss-Legendre product quadrature; summed at "
        "construction, after overwriting or freezing parameters, and during SGD/Adam training, with each evaluation option; "
        "sequences up to 257 long where few have a nonzero amplitude; "
        "non-trivial if the model's total was determined to better than 1e-2 and has more than one sequence")
MIN = {"continuous": 585, "during_training": 516, "frozen": 103, "ill_conditioned": 16, "long_sums": 21,
       "sequences": 530572, "sums": 2267, "with_bias_and_embedding": 200}


def gen(rng, tier, idx):
    emb = [None, False, True][idx % 3]
    s = G.prob_spec(rng, nmax=5, dmax=4, emb=emb)
    if s["n"] == 0:
        s["n"] = 1
    if s["emb"] and s["emb"]["cont"]:
        s["n"] = G.pick(rng, [1, 1, 2, 2, 3 if tier == "thorough" else 2])
    else:
        size = s["emb"]["size"] if s["emb"] else s["d"]
        while size ** s["n"] > (1500 if tier == "quick" else 20000):
            s["n"] -= 1
    if idx % 20 == 12:
        # large alphabets and bonds
        s["D"] = G.pick(rng, [2, 17, 33])
        if not s["emb"]:
            s["n"], s["d"] = G.pick(rng, [(1, 129), (1, 700), (2, 33), (1, 257)])
        elif not s["emb"]["cont"] and s["emb"]["kind"] in ("table", "tabmod"):
            s["n"], s["emb"]["size"] = G.pick(rng, [(1, 129), (1, 700), (2, 33), (1, 257)])
    if idx % 20 == 6:
        # long sequences, of which only few have a nonzero amplitude
        s.update(emb=None, n=G.pick(rng, [33, 65, 129, 200, 257]), D=G.ri(rng, 1, 4), d=G.ri(rng, 1, 3), dist="eye", long=True)
        if s["kind"] == "unif" or s["bias"]:
            s["d"] = 1
        return {"spec": s, "seed": G.rs(rng), "steps": [], "opt": "sgd", "grad": bool(rng.random() < 0.3), "lens": []}
    return {"spec": s, "seed": G.rs(rng), "steps": G.pick(rng, [["train"], ["rand"], ["train", "rand"], ["train", "train"], ["freeze"], ["freeze", "rand"]]),
            "opt": G.pick(rng, ["sgd", "adam"]), "grad": bool(rng.random() < 0.5),
            "lens": [G.ri(rng, 1, 3)] if s["kind"] == "unif" else []}


def points(emb, s, n):
    """All inputs with log weights."""
    if s.get("long") and s["d"] > 1:
        free = s["free"]
        xs = np.zeros((s["d"] ** len(free), n), dtype=np.int64)
        xs[:, free] = np.array(list(itertools.product(range(s["d"]), repeat=len(free)))).reshape(-1, len(free))
        return torch.tensor(xs), np.ones(len(xs)), 0.0
    if emb is None or not emb.cont:
        size = s["d"] if emb is None else emb.size
        xs = np.array(list(itertools.product(range(size), repeat=n)), dtype=np.int64).reshape(-1, n)
        return torch.tensor(xs), np.ones(len(xs)), 0.0
    fdt = G.F[s["dtype"]]
    if n == 1:
        x = np.linspace(emb.lo, emb.hi, 1000)
        w = np.full(1000, (emb.hi - emb.lo) / 999)
        w[[0, -1]] /= 2
        return torch.tensor(x[:, None]).to(fdt), w, 0.0
    k = {2: 24, 3: 12}[n]
    g, gw = np.polynomial.legendre.leggauss(k)
    x = (g + 1) / 2 * (emb.hi - emb.lo) + emb.lo
    gw = gw * (emb.hi - emb.lo) / 2
    xs = np.array(list(itertools.product(x, repeat=n)))
    ws = np.prod(np.array(list(itertools.product(gw, repeat=n))), -1)
    # difference of the two rules on the entries of the lambda matrix, relative to the norm
    lam, _ = emb.lamb(eps=0.0)
    v = emb.vectors(x)
    lam2 = np.einsum("b,bi,bj->ij", gw, v, v.conj())
    return torch.tensor(xs).to(fdt), ws, (lam, lam2)


def total(model, s, emb, n, obs, grad, what):
    sn = dict(s, n=n)
    ref = G.ProbRef(model, sn, emb)
    if not ref.usable or ref.Zrel > 0.1:
        obs.hit("ill_conditioned")
        return False
    t, wts, quad = points(emb, sn, n)
    ch = ref.chain(ref.weights(t, None if emb is not None else np.eye(s["d"])[t.numpy()]), t if emb is not None else None)
    with np.errstate(over="ignore", invalid="ignore"):
        sc = np.exp(2 * ch.e - ref.logZ)
        am = np.abs(ch.m)
        tol = (wts * sc * ((am + ch.err) ** 2 - am**2)).sum() + 2 * (ref.Zrel + ch.logerr.max()) + 1e-9
        tol += 64 * ref.eps * (1 + abs(ref.logZ) + np.abs(ch.e).max())
        want = (wts * sc * am**2).sum()
    if isinstance(quad, tuple):
        lam, lam2 = quad
        zq, _ = refs.log_norm(ref.cores, ref.L, ref.R, 1e-16, lam2)
        tol += abs(np.expm1(zq - refs.log_norm(ref.cores, ref.L, ref.R, 1e-16, lam)[0])) * 1.01 + 1e-6
    if not np.isfinite(tol) or tol > 0.1:
        obs.hit("ill_conditioned")
        return False
    for opt in ("default", "slim", "par"):
        if opt == "slim" and s["bias"]:
            continue
        with torch.set_grad_enabled(grad):
            got = model(t, slim_eval=opt == "slim", parallel_eval=opt == "par")
        g = refs.wide(got)
        need(g.shape == (len(t),), "one log probability per row expected", got=g.shape)
        need(not np.isnan(g).any(), "NaN log probability")
        tot = (wts * np.exp(g)).sum()
        need(abs(tot - 1) <= tol, "probabilities do not sum to one", total=tot, tol=tol, opt=opt, when=what, n=n,
             reference_total=want)
        obs.hit("sums")
        obs.hit("sequences", len(t))
        obs.hit("long_sums", int(bool(s.get("long"))))
        obs.high("worst |total-1|/tol", abs(tot - 1) / tol)
        if s["bias"] and emb is not None:
            obs.hit("with_bias_and_embedding")
        if emb is not None and emb.cont:
            obs.hit("continuous")
        if what == "train":
            obs.hit("during_training")
    return tol < 1e-2 and len(t) > 1


def run(case, obs):
    s = case["spec"]
    model, emb = G.build_prob(s)
    if s.get("long") and s["d"] > 1:
        # all symbols but the first vanish except at a few sites
        r = np.random.default_rng(case["seed"])
        s["free"] = sorted(int(k) for k in r.permutation(s["n"])[: G.ri(r, 1, 5)])
        with torch.no_grad():
            for k in range(s["n"]):
                if k not in s["free"]:
                    model.core_tensors[k, 1:] = 0
    ok = total(model, s, emb, s["n"], obs, case["grad"], "init")
    for n in case["lens"]:
        if emb is None or not emb.cont:
            if (s["d"] if emb is None else emb.size) ** n <= 1500:
                ok |= total(model, s, emb, n, obs, case["grad"], "length")
    rng = np.random.default_rng(case["seed"])
    opt = (torch.optim.SGD if case["opt"] == "sgd" else torch.optim.Adam)(model.parameters(), lr=0.05)
    for st in case["steps"]:
        if st == "rand":
            G.set_params(model, "normal", rng)
            if emb is not None and emb.trainable:
                with torch.no_grad():
                    for p in emb.module.parameters():
                        p.add_(G.rand_like(p, rng, 0.3))
        elif st == "freeze":
            G.freeze(model, rng)
            obs.hit("frozen")
        elif G.ProbRef(model, s, emb).usable:
            t, _ = G.prob_input(s, rng, 5, emb)
            G.train_steps(model, opt, lambda: model.loss(t), 2)
        ok |= total(model, s, emb, s["n"], obs, case["grad"], st)
    obs.state(s["kind"], s["n"], s["d"], s["D"], s["cplx"], s["bias"], s["emb"] and s["emb"]["kind"])
    if ok:
        obs.nontrivial(case["seed"])
