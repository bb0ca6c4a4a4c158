"""C14: svd_flex returns the optimal truncated factorization."""
import string

import numpy as np
import torch

from rtm import gen as G
from rtm import mon, refs
from rtm.core import need

CASES = {"quick": 10000, "thorough": 150000}
RULE = ("random tensors (2-6 indices, real/complex, both precisions; generic, rank-deficient, with equal, tiny, graded or "
        "zero singular values; transposed, expanded, conjugated or leaf) split over random index partitions in random "
        "output orders, with and without a maximum bond, all cutoffs, both sides, with and without a spectrum vector; "
        "judged by NumPy's SVD (Eckart-Young error of the reported number), orthonormality, exact zero padding, and "
        "required errors; non-trivial if at least two singular values are kept and the tensor has more than two indices")
MIN = {"bad_vector_refused": 893, "complex": 1362, "factorizations": 2619, "higher_order": 1795, "padded": 758,
       "spectra": 1296, "sv_left": 1318, "total_truncation_refused": 986, "truncated_by_cutoff": 513,
       "truncated_by_max": 453}
DT = {"f32": torch.float32, "f64": torch.float64, "c64": torch.complex64, "c128": torch.complex128}


def gen(rng, tier, idx):
    k = G.pick(rng, [2, 2, 3, 4, 5, 6])
    c = {"shape": [int(x) for x in rng.integers(1, 5 if k < 5 else 4, size=k)], "seed": G.rs(rng), "dt": G.pick(rng, list(DT)),
         "left": G.ri(rng, 1, k - 1), "kind": G.pick(rng, ["gen", "gen", "low", "equal", "graded", "zero", "spiky"]),
         "scale": G.pick(rng, [0, 0, 0, 6, -6, -12, 12]), "max": None, "svright": bool(rng.random() < 0.5),
         "layout": G.pick(rng, ["plain", "plain", "perm", "leaf", "conj", "slice"]), "vec": G.pick(rng, [None, None, "ok", "ok", "bad"]),
         "cut": G.pick(rng, ["default", "zero", "mid", "mid", "exact", "big", "tiny"]), "spaces": bool(rng.random() < 0.2)}
    if idx % 25 == 6:
        c["shape"] = [G.pick(rng, [16, 33, 65, 100]), G.pick(rng, [5, 17, 40, 130])] + ([2] if k > 2 else [])
        c["left"] = 1
    if k > 2 and rng.random() < 0.05:
        c["left"] = G.pick(rng, [0, k])
    if rng.random() < 0.6:
        c["max"] = G.pick(rng, [1, 2, 3, 5, 9])
    return c


def make(c, rng):
    dt = DT[c["dt"]]
    sh = c["shape"]
    k = len(sh)
    order = [int(i) for i in rng.permutation(k)]  # order[:left] are the left indices
    L, R = order[: c["left"]], order[c["left"]:]
    ld, rd = int(np.prod([sh[i] for i in L])), int(np.prod([sh[i] for i in R]))

    def rnd(*s):
        v = rng.normal(size=s)
        return v + 1j * rng.normal(size=s) if dt.is_complex else v

    m = min(ld, rd)
    u, _, vh = np.linalg.svd(rnd(ld, rd), full_matrices=False)
    kind = c["kind"]
    if kind == "gen":
        mat = rnd(ld, rd)
    elif kind == "low":
        r = G.ri(rng, 0, m)
        mat = rnd(ld, r) @ rnd(r, rd)
    elif kind == "zero":
        mat = np.zeros((ld, rd)) + (rng.random((ld, rd)) < 0.2) * rnd(ld, rd)
    else:
        s = {"equal": np.ones(m), "graded": 10.0 ** (-2.0 * np.arange(m)),
             "spiky": np.where(rng.random(m) < 0.5, 1.0, 1e-3)}[kind]
        mat = (u * s) @ vh
    mat = mat * 10.0 ** c["scale"]
    full = mat.reshape([sh[i] for i in order])
    full = np.transpose(full, np.argsort(order))
    t = torch.tensor(full).to(dt)
    if c["layout"] == "perm":
        p = [int(i) for i in rng.permutation(k)]
        t = t.permute(p).contiguous().permute([int(i) for i in np.argsort(p)])
    elif c["layout"] == "leaf":
        t.requires_grad_(True)
    elif c["layout"] == "conj" and dt.is_complex:
        t = t.conj().resolve_conj().conj()
    elif c["layout"] == "slice":
        big = torch.zeros([2] + list(t.shape), dtype=dt)
        big[1] = t
        t = big[1]
    return t, L, R


def run(case, obs):
    from torchmps.utils import svd_flex

    c = case
    rng = np.random.default_rng(c["seed"])
    t, L, R = make(c, rng)
    k = t.ndim
    wide = refs.wide(t)
    eps = refs.eps_of(t.dtype)
    letters = [str(x) for x in rng.permutation(list(string.ascii_lowercase))[: k + 3]]
    init, bond = letters[:k], letters[k]
    sh = list(t.shape)
    ls, rs_ = [init[i] for i in L], [init[i] for i in R]
    lpos, rpos = int(rng.integers(len(ls) + 1)), int(rng.integers(len(rs_) + 1))
    lstr = ls[:lpos] + [bond] + ls[lpos:]
    rstr = rs_[:rpos] + [bond] + rs_[rpos:]
    sstr = "".join(init) + "->" + "".join(lstr) + "," + "".join(rstr)
    if c["spaces"]:
        sstr = sstr.replace("->", " -> ").replace(",", ", ")
    ld, rd = int(np.prod([sh[i] for i in L])), int(np.prod([sh[i] for i in R]))
    mat = np.transpose(wide, L + R).reshape(ld, rd)
    sv = np.linalg.svd(mat, compute_uv=False)
    top = sv[: c["max"]] if c["max"] else sv
    noise = 30 * eps * sv[0] * np.sqrt(max(ld, rd))
    s0 = sv[0]
    cut = {"default": 1e-10, "zero": 0.0, "mid": float(sv[len(sv) // 2] * G.pick(rng, [0.9, 1.1])), "big": float(s0 * 3 + 1e-9),
           "tiny": float(s0 * 1e-4), "exact": float(10.0 ** c["scale"])}[c["cut"]]
    lo, hi = int((top >= cut + noise).sum()), int((top >= cut - noise).sum())
    if cut <= noise:
        hi = c["max"] if c["max"] else len(sv)  # padding zeros are not strictly below a cutoff of zero
        if cut > 0:
            hi = min(hi, max(len(top), 0))
    kw = {"sv_right": c["svright"]}
    if c["cut"] != "default":
        kw["cutoff"] = cut
    if c["max"]:
        kw["max_D"] = c["max"]
    size = c["max"] or len(sv)
    vec = None
    rdt = t.real.dtype if t.is_complex() else t.dtype
    if c["vec"]:
        vec = torch.full((size + (2 if c["vec"] == "bad" else 0),), -7.0, dtype=rdt)
        kw["sv_vec"] = vec
    before, w0 = mon.bits(t), mon.world()
    try:
        left, right, bd = svd_flex(t, sstr, **kw)
    except TypeError:
        need(c["vec"] == "bad", "spectrum vector of the right size refused")
        obs.hit("bad_vector_refused")
        need(mon.bits(t) == before, "input tensor modified")
        return
    except RuntimeError as e:
        need(lo == 0, "an error although singular values remain", error=str(e), sv=sv, cutoff=cut)
        obs.hit("total_truncation_refused")
        need(mon.bits(t) == before, "input tensor modified")
        return
    need(c["vec"] != "bad", "spectrum vector of the wrong size accepted")
    need(mon.bits(t) == before, "input tensor modified")
    need(not mon.diff(w0, mon.world()), "global state changed", what=mon.diff(w0, mon.world()))
    need(hi > 0, "truncation of everything did not raise", sv=sv, cutoff=cut)
    bd = int(bd)
    need(lo <= bd <= hi, "reported bond dimension", got=bd, low=lo, high=hi, cutoff=cut, sv=sv)
    need(isinstance(left, torch.Tensor) and isinstance(right, torch.Tensor), "outputs are not tensors")
    need(left.dtype == t.dtype and right.dtype == t.dtype, "precision changed", got=(left.dtype, right.dtype))
    b = c["max"] or bd
    need(left.ndim == len(lstr) and right.ndim == len(rstr), "number of indices of the outputs")
    need(tuple(left.shape) == tuple(b if x == bond else sh[init.index(x)] for x in lstr), "shape of the left output",
         got=tuple(left.shape), string=sstr)
    need(tuple(right.shape) == tuple(b if x == bond else sh[init.index(x)] for x in rstr), "shape of the right output",
         got=tuple(right.shape), string=sstr)
    lw, rw = refs.wide(left), refs.wide(right)
    need(np.isfinite(lw).all() and np.isfinite(rw).all(), "output not finite")
    lm = np.moveaxis(lw, lpos, -1).reshape(ld, b)
    rm = np.moveaxis(rw, rpos, 0).reshape(b, rd)
    need(not lm[:, bd:].any() and not rm[bd:].any(), "padding is not zero")
    kept = min(bd, len(sv))
    rec = lm @ rm
    lost = np.sqrt((sv[kept:] ** 2).sum())
    err = np.linalg.norm(mat - rec)
    tol = 4 * noise * np.sqrt(len(sv)) + 1e-45
    need(abs(err - lost) <= tol, "not the best approximation", error=err, optimal=lost, tol=tol)
    if lost <= noise:
        refs.close(rec, mat, tol + lost, "product of the factors")
    q = lm if c["svright"] else rm.conj().T
    o = rm if c["svright"] else lm.conj().T
    q = q[:, :kept]
    # columns of exactly zero padding singular values may be absent
    if bd > len(sv) or c["cut"] == "zero":
        good = np.abs(np.linalg.norm(q, axis=0)) > 0.5
        need(good[: int((top > noise).sum())].all(), "orthonormal factor is missing a kept vector")
        q = q[:, good]
    gram = q.conj().T @ q
    refs.close(gram, np.eye(q.shape[1]), 60 * eps * max(ld, rd, 4), "the side without singular values is not orthonormal")
    rows = np.linalg.norm(o, axis=1)[:kept]
    refs.close(rows, sv[:kept], tol, "size of the singular-value factor")
    if vec is not None:
        got = refs.wide(vec)
        want = np.zeros(size)
        want[: min(size, len(sv))] = sv[:size]
        refs.close(got, want, 2 * noise + 1e-45, "spectrum vector")
        need((np.diff(got) <= 0).all(), "spectrum vector not descending", got=got)
        obs.hit("spectra")
    obs.hit("factorizations")
    obs.hit("complex", int(t.is_complex()))
    obs.hit("sv_left", int(not c["svright"]))
    obs.hit("truncated_by_cutoff", int(bd < min(len(sv), c["max"] or 99)))
    obs.hit("truncated_by_max", int(bool(c["max"]) and c["max"] < len(sv)))
    obs.hit("padded", int(b > bd))
    obs.hit("higher_order", int(k > 2))
    obs.high("worst error/tolerance", abs(err - lost) / tol)
    obs.state(str(c["shape"]), c["left"], c["kind"], c["cut"], c["max"], c["dt"])
    if bd > 1 and k > 2:
        obs.nontrivial(c["seed"])
