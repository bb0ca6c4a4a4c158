"""C05: contract_matseq against plain ordered products with explicit broadcasting."""
import numpy as np
import torch

from rtm import gen as G
from rtm import refs
from rtm.core import fail, need

CASES = {"quick": 8000, "thorough": 120000}
RULE = ("random matrix sequences (stacked tensor, list, tuple; square or rectangular; 0-9 matrices, sometimes 40; real "
        "or complex, both precisions; strided, expanded or leaf tensors), random broadcastable batch shapes, 0-2 "
        "boundary vectors, all option combinations, up to 300 matrices, plus sequences without a product, which must be refused; "
        "non-trivial if at least two matrices were multiplied or two batch shapes differed")
MIN = {"broadcast": 1227, "empty": 212, "log_format": 6078, "products": 12157, "refusals": 2176}
DT = {"f32": torch.float32, "f64": torch.float64, "c64": torch.complex64, "c128": torch.complex128}
EPS = {"f32": 2.0**-23, "c64": 2.0**-23, "f64": 2.0**-52, "c128": 2.0**-52}


def gen(rng, tier, idx):
    n = G.pick(rng, [0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, G.ri(rng, 10, 40)])
    kind = G.pick(rng, ["stack", "stack", "same", "rect"])
    c = {"n": n, "kind": kind, "dt": G.pick(rng, list(DT)), "vecs": [bool(rng.random() < 0.5), bool(rng.random() < 0.5)],
         "seed": G.rs(rng), "scale": G.pick(rng, [0, 0, 0, 1, -1, 2]), "bad": None,
         "seqtype": G.pick(rng, ["list", "tuple"]), "layout": G.pick(rng, ["plain", "plain", "strided", "leaf"])}
    D = G.pick(rng, [1, 2, 3, 4, 5])
    big = rng.random() < 0.04
    if big and kind != "rect":
        D = G.pick(rng, [16, 17, 33, 64, 65])
        n = c["n"] = min(n, 6)
    c["dims"] = [int(x) for x in rng.integers(1, 6, size=n + 1)] if kind == "rect" else [D] * (n + 1)
    if kind != "rect" and n == 1 and rng.random() < 0.4:
        c["dims"] = [D, G.ri(rng, 1, 5)]
    full = [int(x) for x in rng.integers(1, 4, size=G.pick(rng, [0, 0, 1, 1, 2, 3]))]
    if big and kind == "rect" and full:
        full[0] = G.pick(rng, [33, 129, 300, 600])
        n = c["n"] = min(n, 6)
        c["dims"] = c["dims"][: n + 1]
    if idx % 25 == 7:
        # many matrices, or large batches of square ones
        if rng.random() < 0.5:
            n = c["n"] = G.pick(rng, [65, 130, 257, 300])
            D = G.ri(rng, 1, 4)
            full = full[:1]
            c.update(scale=-0.5 * float(np.log10(D)), dt=G.pick(rng, ["f64", "c128", "f32"]))
        else:
            kind = c["kind"] = G.pick(rng, ["stack", "same"])
            D, n = G.ri(rng, 1, 4), G.ri(rng, 1, 6)
            c["n"] = n
            full = [G.pick(rng, [33, 131, 300, 600])] + full[:1]
        if kind == "rect":
            kind = c["kind"] = "same"
        c["dims"] = [D] * (n + 1)
        c["large"] = True
    if rng.random() < 0.06 and full:
        full[int(rng.integers(len(full)))] = 0

    def sub():
        sh = list(full[int(rng.integers(0, len(full) + 1)):]) if rng.random() < 0.6 else list(full)
        return [1 if rng.random() < 0.3 else x for x in sh]

    c["full"] = full
    nb = 1 if kind == "stack" else n
    c["bm"] = [sub() for _ in range(nb)] if rng.random() < 0.6 else [full] * nb
    c["bv"] = [sub(), sub()]
    if rng.random() < 0.15:
        c["bad"] = G.pick(rng, ["dim", "batch", "none", "vec", "stackrect"])
    return c


def make(c):
    rng = np.random.default_rng(c["seed"])
    dt = DT[c["dt"]]

    def t(shape):
        v = rng.normal(size=shape) * 10.0 ** c["scale"]
        if dt.is_complex:
            v = v + 1j * rng.normal(size=shape)
        if rng.random() < 0.1 and v.size:
            v.flat[int(rng.integers(v.size))] = 0
        x = torch.tensor(v).to(dt)
        if c["layout"] == "strided" and x.ndim > 1:
            x = x.transpose(-1, -2).contiguous().transpose(-1, -2)
        if c["layout"] == "leaf":
            x.requires_grad_(True)
        return x

    n, dims = c["n"], c["dims"]
    if c["kind"] == "stack":
        d1 = dims[1] if n >= 1 else dims[0]
        mats = t(tuple(c["bm"][0]) + (n, dims[0], d1))
    else:
        ms = [t(tuple(b) + (dims[i], dims[i + 1])) for i, b in enumerate(c["bm"])]
        mats = tuple(ms) if c["seqtype"] == "tuple" else ms
    L = t(tuple(c["bv"][0]) + (dims[0],)) if c["vecs"][0] else None
    R = t(tuple(c["bv"][1]) + (dims[-1],)) if c["vecs"][1] else None
    return mats, L, R


def product(mats, L, R):
    """(value, product of absolute values) with NumPy broadcasting"""
    if isinstance(mats, torch.Tensor):
        w = refs.wide(mats)
        ms = [w[..., i, :, :] for i in range(w.shape[-3])]
        extra = w.shape[:-3]
        D = w.shape[-1]
    else:
        ms = [refs.wide(m) for m in mats]
        extra, D = (), None
    out = []
    for f in (lambda a: a, np.abs):
        p = None
        if L is not None:
            p = f(refs.wide(L))[..., None, :]
        for m in ms:
            p = f(m) if p is None else p @ f(m)
        if R is not None:
            r = f(refs.wide(R))[..., None]
            p = r if p is None else p @ r
        if p is None:
            p = np.eye(D)
        p = np.broadcast_to(p, np.broadcast_shapes(p.shape[:-2], extra) + p.shape[-2:])
        if L is not None:
            p = p[..., 0, :]
        if R is not None:
            p = p[..., 0]
        out.append(p)
    return out


def run(c, obs):
    from torchmps.mps_base import contract_matseq

    mats, L, R = make(c)
    n = c["n"]
    if c["bad"]:
        return refuse(c, mats, L, R, obs, contract_matseq)
    if n == 0 and c["kind"] != "stack" and L is None and R is None:
        for par in (False, True):
            try:
                contract_matseq(mats, parallel_eval=par)
            except Exception:
                obs.hit("refusals")
            else:
                fail("empty product without any size was accepted")
        return
    want, absw = product(mats, L, R)
    eps = EPS[c["dt"]]
    gam = 8 * eps * (n + 3) * (2 * max(c["dims"]) + 8)
    # magnitudes of partial log scales
    logs = 3.0 * (n + 2) * (abs(c["scale"]) + 1)
    tol = gam * absw + 8 * eps * logs * np.abs(want) + 1e-300
    ms = mats.unbind(-3) if isinstance(mats, torch.Tensor) else mats
    biglog = sum(abs(np.log(np.abs(refs.wide(m)).max(initial=0) * m.shape[-1] or 1)) for m in list(ms)
                 + [v[None] for v in (L, R) if v is not None])
    for par in (False, True):
        for lf in (False, True):
            out = contract_matseq(mats, L, R, par, lf)
            obs.hit("products")
            if lf:
                obs.hit("log_format")
                need(isinstance(out, tuple) and len(out) == 2, "log format gives a pair")
                con, ls = out
                need(not ls.is_complex(), "complex log scale")
                con, ls = refs.wide(con), refs.wide(ls)
                while ls.ndim < con.ndim:
                    fail("log scale does not broadcast with the contraction", con=con.shape, ls=ls.shape)
                try:
                    bs = np.broadcast_shapes(con.shape, ls.shape)
                except ValueError:
                    fail("log scale does not broadcast with the contraction", con=con.shape, ls=ls.shape)
                need(bs == con.shape, "log scale enlarges the contraction", con=con.shape, ls=ls.shape)
                got = con * np.exp(ls)
            else:
                need(isinstance(out, torch.Tensor), "not a tensor")
                need(out.dtype == DT[c["dt"]], "precision changed", got=str(out.dtype))
                if biglog > (80 if eps > 1e-10 else 600):
                    continue  # partial products out of floating-point range
                got = refs.wide(out)
            refs.close(got, want, tol + (1e-44 if eps > 1e-10 else 0), f"product (parallel={par}, log={lf})")
    if n == 0:
        obs.hit("empty")
    if len({tuple(b) for b in c["bm"] + [c["bv"][i] for i in (0, 1) if c["vecs"][i]]}) > 1:
        obs.hit("broadcast")
    obs.state(n, c["kind"], tuple(c["dims"]), tuple(c["vecs"]), c["dt"], tuple(c["full"]))
    if n > 1:
        obs.nontrivial(c["seed"])


def refuse(c, mats, L, R, obs, contract_matseq):
    rng = np.random.default_rng(c["seed"] + 1)
    bad, n, dt = c["bad"], c["n"], DT[c["dt"]]
    r = lambda *sh: torch.tensor(rng.normal(size=sh)).to(dt)
    if bad == "dim":  # inner sizes do not match
        k = int(rng.integers(2, 5))
        ms = [r(2, 3) for _ in range(k)]
        ms[int(rng.integers(1, k))] = r(4, 3)
        L = r(2) if c["vecs"][0] else None
        R = r(3) if c["vecs"][1] else None
    elif bad == "batch":
        k = int(rng.integers(1, 4))
        ms = [r(2, 3, 3) for _ in range(k)] + [r(5, 3, 3)]
        L = r(3) if c["vecs"][0] else None
        R = r(2, 3) if c["vecs"][1] else None
    elif bad == "none":
        ms, L, R = [], None, None
    elif bad == "vec":
        k = int(rng.integers(1, 5))
        ms = r(k, 3, 3)
        L, R = (r(2), None) if c["vecs"][0] else (r(3), r(4))
    else:  # a stack of rectangular matrices has no product
        k = int(rng.integers(2, 5))
        ms = r(k, 2, 3)
        L = r(2) if c["vecs"][0] else None
        R = r(3) if c["vecs"][1] else None
    for par in (False, True):
        for lf in (False, True):
            try:
                out = contract_matseq(ms, L, R, par, lf)
            except Exception:
                obs.hit("refusals")
            else:
                fail("undefined product was accepted", bad=bad, parallel=par)
