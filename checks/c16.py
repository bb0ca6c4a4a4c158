"""C16: embeddings and the matrix used for normalizing over their domain."""
import math

import numpy as np
import torch

from rtm import gen as G
from rtm import mon, refs
from rtm.core import fail, need

CASES = {"quick": 7000, "thorough": 80000}
RULE = ("normalization data of random fixed and trainable embeddings (all library and custom functions; domains of 1-12 "
        "symbols or intervals of any place and length; orthogonal, nearly orthogonal, proportional, tiny and huge vectors; "
        "real/complex; both default precisions; several numbers of points), expanded to a matrix and compared with a "
        "NumPy sum or trapezoid; onehot, trigonometric and sine-cosine embeddings of tensors of random shape, dimension "
        "and type against their formulas; MLP embeddings against their layers; non-trivial: dimension above one")
MIN = {"complex": 497, "diagonal_form": 128, "functions": 1035, "lambdas": 3900, "matrix_form": 2448,
       "nearly_special": 174, "scalar_form": 1323, "shared_domains": 845, "trainable": 1036}


def gen(rng, tier, idx):
    c = {"seed": G.rs(rng), "f64": bool(rng.random() < 0.4)}
    c["what"] = G.pick(rng, ["fixed", "fixed", "special", "train", "func", "func"])
    c["d"] = G.pick(rng, [1, 2, 2, 3, 4, G.ri(rng, 1, 8)])
    if c["what"] == "fixed":
        c["emb"] = G.emb_spec(rng, c["d"], bool(rng.random() < 0.5), trainable=False)
    elif c["what"] == "train":
        c["emb"] = G.emb_spec(rng, c["d"], bool(rng.random() < 0.4), trainable=True)
    elif c["what"] == "special":
        c["form"] = G.pick(rng, ["scalar", "diag", "near_scalar", "near_diag", "phase", "dup"])
        c["cplx"] = bool(rng.random() < 0.4)
        c["scale"] = G.pick(rng, [1.0, 1.0, 1e-3, 1e-5, 1e3, 1e6])
        c["dev"] = G.pick(rng, [1e-1, 1e-2, 1e-3, 1e-4, 1e-5] + ([1e-8, 1e-11] if c["f64"] else []))
    else:
        c["fun"] = G.pick(rng, ["onehot", "trig", "trig", "sincos"])
        c["shape"] = [int(x) for x in rng.integers(0 if rng.random() < 0.1 else 1, 5, size=G.pick(rng, [0, 1, 2, 2, 3, 4]))]
        c["d"] = G.pick(rng, [1, 2, 3, 4, 5, 8, 13, 30])
        if idx % 20 == 3 and c["shape"]:
            c["shape"] = c["shape"][:2]
            c["shape"][0] = G.pick(rng, [65, 257, 1025, 3000])
    if "emb" in c and c["emb"]["kind"] in ("table", "tabmod") and idx % 10 == 3:
        c["emb"]["size"] = G.pick(rng, [33, 65, 129, 300, 1001, 1500, 2048, 2500, 4097])
    if "emb" in c and c["emb"]["cont"]:
        lo, hi = G.pick(rng, [(0, 1), (-1, 1), (0.25, 2.0), (-0.5, 0.1), (2, 3), (-3, -2.5), (0, 1e-2), (-4, 7), (0.0, 100.0)])
        if c["emb"]["kind"] in ("fourier", "poly") and hi == 100.0:
            hi = 3.0
        c["emb"]["lo"], c["emb"]["hi"] = lo, hi
        c["points"] = G.pick(rng, [None, None, 2, 3, 17, 500, 2001])
    return c


def expand(lam, d):
    """the matrix represented by a scalar, diagonal or full normalization matrix"""
    need(isinstance(lam, torch.Tensor), "normalization data is not a tensor", got=type(lam).__name__)
    w = refs.wide(lam)
    if w.ndim == 0:
        return w * np.eye(d), "scalar_form"
    if w.ndim == 1:
        need(w.shape == (d,), "size of the diagonal", got=w.shape, d=d)
        return np.diag(w), "diagonal_form"
    need(w.shape == (d, d), "size of the matrix", got=w.shape, d=d)
    return w, "matrix_form"


def run(c, obs):
    rng = np.random.default_rng(c["seed"])
    fdt = torch.float64 if c["f64"] else torch.float32
    torch.set_default_dtype(fdt)
    w0 = mon.world()
    globals()["do_" + c["what"]](c, rng, obs, fdt)
    obs.state(c["what"], c["d"], str(c.get("emb", {}).get("kind")), c.get("form"), c.get("fun"), str(c.get("shape")), c["f64"])
    if c["d"] > 1:
        obs.nontrivial(c["seed"])


def judge(c, obs, emb, lib, fdt, module=None):
    d = c["d"]
    eps = 2.0**-23 if fdt == torch.float32 else 2.0**-52
    num = c.get("points") or 1000
    lam, err = emb.lamb(module, eps, num)
    if emb.cont and emb.spec.get("kind") == "fourier":
        err = err + 40 * eps * num ** 0.5 * np.abs(lam).max()
    if emb.cont:
        err = err + eps * 8 * np.abs(lam).max() * math.sqrt(num)
        width = emb.hi - emb.lo
        # spacing of rounded points
        err = err + 30 * eps * max(abs(emb.lo), abs(emb.hi)) / width * np.abs(lam).max()
    got, form = expand(lib.lamb_mat, d)
    refs.close(got, lam, err, "normalization matrix", kind=emb.spec["kind"], points=num)
    herm = np.abs(got - got.conj().T).max()
    need(herm <= 20 * eps * np.abs(got).max(), "normalization matrix is not Hermitian")
    obs.hit("lambdas")
    obs.hit(form)
    obs.hit("complex", int(np.iscomplexobj(got) and np.abs(got.imag).max() > 1e-3 * np.abs(got).max()))
    # the embedding function itself
    x = emb.points(num)
    sel = x[:: max(1, len(x) // 7)]
    shape = (len(sel), 1) if len(sel) % 2 else (len(sel),)
    t = torch.tensor(np.asarray(sel).reshape(shape))
    t = t.to(fdt) if emb.cont else t.long()
    v = lib(t)
    want = emb.vectors(refs.wide(t), module)
    need(tuple(v.shape) == shape + (d,), "shape of embedded data", got=tuple(v.shape))
    tol = 60 * eps * (np.abs(want).max() + 1e-30) * (1 + (emb.kind == "fourier") * 6 * d * np.abs(sel).max(initial=0))
    if emb.kind == "trig":
        tol *= 4 + np.abs(sel).max(initial=0) * d
    if emb.kind in ("mlp", "polymod", "poly"):
        tol *= 20 * (1 + np.abs(sel).max(initial=0))
    refs.close(refs.wide(v), want, tol, "embedded values")


def do_fixed(c, rng, obs, fdt):
    from torchmps.embeddings import FixedEmbedding

    c["emb"]["wrapped"] = True
    emb = G.Emb(c["emb"], c["d"], fdt)
    lib = emb.obj
    need(isinstance(lib, FixedEmbedding), "harness")
    if c.get("points"):
        lib.make_lambda(num_points=c["points"])
    need(int(lib.emb_dim) == c["d"], "emb_dim", got=lib.emb_dim)
    judge(c, obs, emb, lib, fdt)
    if rng.random() < 0.4:
        # other embeddings over the same domain object
        for _ in range(2):
            spec = dict(c["emb"], seed=G.rs(rng), scale=G.pick(rng, [0.5, 1.0, 2.0]))
            if emb.cont and rng.random() < 0.5:
                spec["kind"] = G.pick(rng, ["trig", "poly"])
            e = G.Emb(spec, c["d"], fdt, domain=emb.domain)
            if c.get("points"):
                e.obj.make_lambda(num_points=c["points"])
            judge(c, obs, e, e.obj, fdt)
            obs.hit("shared_domains")
        judge(c, obs, emb, lib, fdt)


def do_train(c, rng, obs, fdt):
    emb = G.Emb(c["emb"], c["d"], fdt)
    lib = emb.obj
    for step in range(2):
        if c.get("points"):
            lam = lib.make_lambda(num_points=c["points"])
            holder = type("H", (), {"lamb_mat": lam, "__call__": lambda self, x: lib(x)})()
        else:
            holder = lib
        judge(c, obs, emb, holder, fdt, emb.module)
        obs.hit("trainable")
        with torch.no_grad():
            for p in emb.module.parameters():
                p.mul_(0.7).add_(0.1)


def do_special(c, rng, obs, fdt):
    """tables whose normalization matrix is (nearly) a multiple of the identity or diagonal"""
    from torchmps.embeddings import DataDomain, FixedEmbedding

    d, sc = c["d"], c["scale"]
    size = d if c["form"] != "dup" else 2 * d
    q = np.linalg.qr(rng.normal(size=(d, d)) + (1j * rng.normal(size=(d, d)) if c["cplx"] else 0))[0]
    form = c["form"]
    if form in ("scalar", "near_scalar"):
        t = q
    elif form == "phase":
        t = np.diag(np.exp(2j * np.pi * rng.random(d)))[rng.permutation(d)] if c["cplx"] else np.eye(d)[rng.permutation(d)]
    elif form == "dup":
        t = np.concatenate([np.eye(d), -np.eye(d)])
    else:
        t = np.diag(rng.uniform(0.5, 2, size=d))[rng.permutation(d)]
    if form.startswith("near"):
        pert = np.zeros_like(t)
        pert[int(rng.integers(size)), int(rng.integers(d))] = 1.0
        pert[int(rng.integers(size)), int(rng.integers(d))] += 1j if c["cplx"] else -1.0
        t = t + c["dev"] * pert
        obs.hit("nearly_special")
    cdt = torch.complex128 if fdt == torch.float64 else torch.complex64
    tt = torch.tensor(t * sc).to(cdt if np.iscomplexobj(t) else fdt)
    lib = FixedEmbedding(lambda x: tt[x], DataDomain(continuous=False, max_val=size))
    w = refs.wide(tt)
    lam = np.einsum("xi,xj->ij", w, w.conj())
    eps = 2.0**-23 if fdt == torch.float32 else 2.0**-52
    got, f = expand(lib.lamb_mat, d)
    refs.close(got, lam, (size + 24) * eps * np.abs(lam).max(), "normalization matrix", form=form, deviation=c["dev"], scale=sc)
    obs.hit("lambdas")
    obs.hit(f)
    obs.hit("complex", int(c["cplx"]))


def do_func(c, rng, obs, fdt):
    from torchmps import embeddings as E

    d, shape = c["d"], tuple(c["shape"])
    obs.hit("functions")
    if c["fun"] == "onehot":
        x = rng.integers(0, d, size=shape)
        t = torch.tensor(x, dtype=torch.long)
        before = mon.bits(t)
        v = E.onehot_embed(t, d)
        need(mon.bits(t) == before, "input modified")
        want = np.eye(d)[x]
        need(tuple(v.shape) == want.shape, "shape of one-hot vectors", got=tuple(v.shape))
        need((refs.wide(v) == want).all(), "one-hot vectors", got=refs.wide(v))
        if d > 1 and x.size:
            t2 = t.clone()
            t2.view(-1)[0] = d
            try:
                E.onehot_embed(t2, d)
            except Exception:
                pass
            else:
                fail("index outside the alphabet has a one-hot vector")
        return
    lo, hi = G.pick(rng, [(0, 1), (0, 1), (-1, 1), (-6, 9)])
    x = rng.uniform(lo, hi, size=shape)
    if x.size:
        x.flat[0] = G.pick(rng, [0.0, 1.0, x.flat[0]])
    t = torch.tensor(x).to(fdt)
    before = mon.bits(t)
    if c["fun"] == "sincos":
        d = 2
        v = E.sincos_embed(t)
    else:
        v = E.trig_embed(t, emb_dim=d) if d != 2 or rng.random() < 0.5 else E.trig_embed(t)
    need(mon.bits(t) == before, "input modified")
    xw = refs.wide(t)[..., None]
    j = np.arange(d)
    cc = np.sqrt([float(math.comb(d - 1, k)) for k in range(d)])
    co, si = np.cos(np.pi * xw / 2), np.sin(np.pi * xw / 2)
    want = cc * co ** (d - 1 - j) * si**j
    need(tuple(v.shape) == want.shape, "shape of the embedding", got=tuple(v.shape))
    eps = 2.0**-23 if fdt == torch.float32 else 2.0**-52
    dl = eps * (4 * np.abs(xw) + 4)  # rounding of the sine and cosine
    ab = cc * np.abs(co) ** (d - 1 - j) * np.abs(si) ** j
    tol = eps * (8 + 4 * d) * ab + 2 * (cc * (np.abs(co) + dl) ** (d - 1 - j) * (np.abs(si) + dl) ** j - ab) + 1e-36
    refs.close(refs.wide(v), want, tol, f"{c['fun']} embedding of dimension {d}")
    need(v.dtype == fdt, "precision of the embedding changed", got=str(v.dtype))
    nrm = (refs.wide(v) ** 2).sum(-1)
    if nrm.size:
        need(np.abs(nrm - 1).max() < 100 * eps * d * (1 + np.abs(xw).max()), "embedded values are not normalized")
