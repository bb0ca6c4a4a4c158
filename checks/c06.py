"""C06: log-format contractions and log probabilities at extreme lengths and scales, and at exact zeros."""
import numpy as np
import torch

from rtm import gen as G
from rtm import refs
from rtm.core import Skip, fail, need

CASES = {"quick": 3000, "thorough": 12000}
RULE = ("matrix chains and probabilistic models of length up to 400 (thorough 3000) with core scales 1e-11..1e11 and "
        "boundary scales 1e-11..1e11, real/complex (sometimes with purely real or imaginary entries), both precisions, symbols or vectors, with and without exactly zero "
        "amplitudes (zero slices, partial permutation matrices); log magnitude and phase against a log-domain "
        "reference; non-trivial if the exact amplitude or norm is outside the floating-point range or exactly zero")
MIN = {"exact_zero_rows": 511, "matseq": 3638, "out_of_range": 1921, "purely_imaginary": 300, "rows": 9000, "zero_beside_nonzero": 236}


def gen(rng, tier, idx):
    top = 400 if tier == "quick" else 3000
    n = G.pick(rng, [1, 2, 3, 5, 17, 64, G.ri(rng, 20, top)]) if idx % 30 != 4 else G.ri(rng, 1000, 2500)
    c = {"what": "matseq" if idx % 3 == 0 else "prob", "n": n, "seed": G.rs(rng),
         "pattern": G.pick(rng, ["dense", "dense", "perm", "zero", "mixed", "alternate"]),
         "logscale": G.pick(rng, [0, -3, 3, -8, 8, -11, 11, G.ri(rng, -11, 11)]),
         "bscale": G.pick(rng, [0, 0, -5, 5, -11, 11]), "D": G.pick(rng, [1, 2, 3, 4]),
         "dtype": G.pick(rng, ["f32", "f32", "f64"]), "cplx": bool(rng.random() < 0.4), "batch": G.ri(rng, 1, 5)}
    if c["what"] == "prob":
        c.update(d=G.ri(rng, 1, 4), kind=G.pick(rng, ["fixed", "unif"]),
                 inp=G.pick(rng, ["sym", "sym", "sym", "vec", "cvec"]), slim=bool(rng.random() < 0.5),
                 par=bool(rng.random() < 0.5), init=G.pick(rng, [0, 0, 1]),
                 emb=G.pick(rng, [None, None, "table", "trig"]))
        if idx % 20 == 11:
            # other sizes large
            c["n"] = G.pick(rng, [5, 17, 33, 60])
            c.update(G.pick(rng, [{"D": 17}, {"D": 33}, {"D": 50}, {"d": 33}, {"d": 65}, {"d": 130}, {"batch": 130}, {"batch": 400}, {"batch": 600}]))
            c["emb"] = None
    else:
        if idx % 20 in (12, 15):
            c["n"] = G.pick(rng, [5, 17, 33, 60])
            c.update(G.pick(rng, [{"D": 17}, {"D": 33}, {"D": 50}, {"batch": 130}, {"batch": 400}, {"batch": 600}]))
        c.update(vecs=[bool(rng.random() < 0.6), bool(rng.random() < 0.6)], par=bool(rng.random() < 0.5),
                 form=G.pick(rng, ["stack", "list"]))
        if c["D"] > 4:
            c["vecs"] = [True, True]
    # complex numbers which are all purely real or purely imaginary
    if idx % 10 in (3, 6):
        c.update(cplx=True, pure=G.pick(rng, ["edges", "cores", "both", "left"]))
    return c


def cores(c, rng, shape):
    """(..., D, D) matrices with the case's scale and zero pattern."""
    D = shape[-1]
    v = rng.normal(size=shape)
    if c["cplx"]:
        v = v + 1j * rng.normal(size=shape)
        if c.get("pure"):
            v = v.real * (1j if c["pure"] in ("cores", "both") else 1 + 0j)
    flat = v.reshape(-1, D, D)
    if c["pattern"] == "perm":
        for i in range(len(flat)):
            p = np.eye(D)[rng.permutation(D)]
            if rng.random() < 0.3 / max(1, len(flat) / 8):
                p[int(rng.integers(D))] = 0
            flat[i] = p
    elif c["pattern"] == "zero":
        k = int(rng.integers(len(flat)))
        flat[k] = 0
    elif c["pattern"] == "alternate":
        flat *= (10.0 ** (6 * (1 - 2 * (np.arange(len(flat)) % 2))))[:, None, None]
    elif c["pattern"] == "mixed":
        flat *= 10.0 ** rng.uniform(-4, 4, size=(len(flat), 1, 1))
    lim = 11 - (6 if c["pattern"] == "alternate" else 4 if c["pattern"] == "mixed" else 0)
    return flat.reshape(shape) * 10.0 ** max(-lim, min(lim, c["logscale"]))


def bvec(c, rng, D, left=False):
    if c["pattern"] == "perm":
        v = np.zeros(D)
        v[int(rng.integers(D))] = 1
        if rng.random() < 0.3:
            v[:] = 1
    else:
        v = rng.normal(size=D)
        if c["cplx"]:
            v = v + 1j * rng.normal(size=D)
    if c.get("pure"):
        v = v.real * (1j if c["pure"] in ("edges", "both") or left and c["pure"] == "left" else 1 + 0j)
    return v * 10.0 ** c["bscale"]


def check_log(gotlog, ch, eps, what, obs, factor=1.0, extra=0.0, shift=0.0):
    """gotlog: array of log magnitudes (times factor, minus shift)"""
    need(not np.isnan(gotlog).any(), f"{what}: NaN", got=gotlog[:5])
    need(not (gotlog == np.inf).any(), f"{what}: infinite")
    zero = (ch.m == 0) & (ch.err == 0)
    need((gotlog[zero] == -np.inf).all(), f"{what}: exact zero is not minus infinity", got=gotlog[zero][:5])
    ok = ch.rel < 0.3
    want = factor * ch.logabs[ok] - shift
    tol = factor * (2 * ch.rel[ok] + ch.logerr[ok]) + extra + 16 * eps * (1 + np.abs(factor * ch.logabs[ok]) + abs(shift))
    refs.close(gotlog[ok], want, tol, what)
    rest = ~zero & ~ok
    with np.errstate(divide="ignore"):
        lim = factor * (np.log(np.abs(ch.m[rest]) + ch.err[rest]) + ch.e[rest] + ch.logerr[rest]) - shift + extra + 1e-3
    need((gotlog[rest] <= lim + 1e-3 * np.abs(lim)).all(), f"{what}: too large for a vanishing amplitude")
    big = 88 if eps > 1e-10 else 709
    with np.errstate(invalid="ignore"):
        oor = (np.abs(ch.logabs) > big) & ~zero
    obs.hit("rows", int(ok.sum()))
    obs.hit("exact_zero_rows", int(zero.sum()))
    obs.hit("out_of_range", int(oor.sum()))
    if zero.any() and ok.any():
        obs.hit("zero_beside_nonzero")
    return bool(oor.any() or zero.any())


def run(case, obs):
    c = case
    rng = np.random.default_rng(c["seed"])
    if c.get("pure"):
        obs.hit("purely_imaginary")
    (run_matseq if c["what"] == "matseq" else run_prob)(c, rng, obs)
    obs.state(*[str(c[k]) for k in ("what", "n", "pattern", "logscale", "bscale", "D", "dtype", "cplx")])


def run_matseq(c, rng, obs):
    from torchmps.mps_base import contract_matseq

    fdt = G.F[c["dtype"]]
    dt = {torch.float32: torch.complex64, torch.float64: torch.complex128}[fdt] if c["cplx"] else fdt
    eps = G.eps_s(c)
    B, n, D = c["batch"], c["n"], c["D"]
    M = torch.tensor(cores(c, rng, (B, n, D, D))).to(dt)
    L = torch.tensor(bvec(c, rng, D, True)).to(dt)
    R = torch.tensor(bvec(c, rng, D)).to(dt)
    mats = M if c["form"] == "stack" else [M[:, i] for i in range(n)]
    con, ls = contract_matseq(mats, L if c["vecs"][0] else None, R if c["vecs"][1] else None, c["par"], True)
    need(bool(torch.isfinite(torch.view_as_real(con) if con.is_complex() else con).all()), "contraction is not finite")
    need(bool(torch.isfinite(ls).all()), "log scale is not finite")
    con, ls = np.broadcast_arrays(refs.wide(con), refs.wide(ls))
    Mw = refs.wide(M)
    interesting = False
    lefts = [(None, refs.wide(L))] if c["vecs"][0] else [(i, np.eye(D)[i]) for i in range(D)]
    rights = [(None, refs.wide(R))] if c["vecs"][1] else [(i, np.eye(D)[i]) for i in range(D)]
    # without boundary vectors rounding is relative to the whole product
    for li, l in lefts:
        for ri, r in rights:
            k, s_ = con, ls
            if ri is not None:
                k, s_ = k[..., ri], s_[..., ri]
            if li is not None:
                k, s_ = k[..., li], s_[..., li]
            ch = refs.Chain(Mw, l, r, eps)
            with np.errstate(divide="ignore"):
                glog = np.log(np.abs(k)) + s_
            obs.hit("matseq", len(k))
            interesting |= check_log(glog, ch, eps, "log magnitude of the contraction", obs)
            ok = (ch.rel < 0.1) & (np.abs(k) > 0)
            ph = k[ok] / np.abs(k[ok])
            refs.close(ph, ch.m[ok] / np.abs(ch.m[ok]), 4 * ch.rel[ok] + 64 * eps, "sign or phase")
    if interesting:
        obs.nontrivial(c["seed"])


def run_prob(c, rng, obs):
    s = {"kind": c["kind"], "n": c["n"], "d": c["d"], "D": c["D"], "cplx": c["cplx"], "bias": False, "init": "near_eye",
         "dtype": c["dtype"], "dist": "init", "seed": c["seed"], "emb": None, "inp": c["inp"]}
    if c["emb"] == "table":
        s["emb"] = {"seed": 5, "wrapped": False, "kind": "table", "cont": False, "size": 3, "scale": 1.0}
    elif c["emb"] == "trig":
        s["emb"] = {"seed": 5, "wrapped": False, "kind": "trig", "cont": True, "lo": 0, "hi": 1}
    model, emb = G.build_prob(s)
    shape = ((c["n"],) if c["kind"] == "fixed" else ()) + (c["d"], c["D"], c["D"])
    with torch.no_grad():
        v = torch.tensor(cores(c, rng, shape))
        model.core_tensors.copy_(v.to(model.core_tensors.dtype))
        e = np.stack([bvec(c, rng, c["D"], True), bvec(c, rng, c["D"])])
        model.edge_vecs.copy_(torch.tensor(e).to(model.edge_vecs.dtype))
    t, w = G.prob_input(s, rng, c["batch"], emb)
    ref = G.ProbRef(model, s, emb)
    if not ref.usable:
        raise Skip("norm is zero or not determined")
    ch = ref.chain(ref.weights(t, w))
    got = model(t, slim_eval=c["slim"], parallel_eval=c["par"])
    need(tuple(got.shape) == (len(t),), "wrong shape", got=tuple(got.shape))
    inter = check_log(refs.wide(got), ch, ref.eps, "log probability", obs, factor=2.0, extra=ref.Zrel, shift=ref.logZ)
    if inter or abs(ref.logZ) > (88 if c["dtype"] == "f32" else 709):
        obs.nontrivial(c["seed"])
