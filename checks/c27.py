"""C27: get_log_norm and the models' log_norm against enumeration of all index sequences."""
import math

import numpy as np
import torch

from rtm import gen as G
from rtm import mon, refs
from rtm.core import Skip, fail, need

CASES = {"quick": 1600, "thorough": 80000}
RULE = ("random cores (shared or per site, real or complex, single or double, sparse, near identity or scaled by up to "
        "1e+-12, 0-9 sites enumerated fully and up to 300 sites against a reference contraction with a running error "
        "bound), boundary vectors and normalization matrices (none, scalar, diagonal, Hermitian of full and low rank, of "
        "other precisions); all equivalent forms, stacked shared cores, rescaled and gauge transformed chains, split "
        "lengths and models with and without bias must agree; non-trivial with two or more sites and symbols")
MIN = {"calls": 3132, "chains": 485, "enumerated": 383, "model_lengths": 232, "models": 117, "refused": 63,
       "relations": 2610, "values": 458, "vanishing": 121}
ASSUMPTIONS = ["sums lost in rounding (error bound above one half) are skipped and counted"]


def gen(rng, tier, idx):
    d = G.pick(rng, [1, 2, 2, 3, 4, 5])
    if idx % 25 == 13:
        d = G.pick(rng, [17, 33, 65, 129])
    long = rng.random() < 0.25
    top = 300 if long else max(1, int(math.log(3000) / math.log(max(d, 2))))
    return {"what": G.pick(rng, ["fun"] * 10 + ["model"] * 2 + ["chains"] * (idx % 4 == 0)), "n": G.ri(rng, 0, top) if rng.random() < 0.9 else 0, "d": d,
            "D": G.ri(rng, 1, 5) if idx % 25 != 14 else G.pick(rng, [16, 17, 33, 64]), "uniform": bool(rng.random() < 0.5), "cplx": bool(rng.random() < 0.5),
            "dt": G.pick(rng, ["f32", "f64", "f64"]), "lamb": G.pick(rng, ["none", "scalar", "diag", "full", "full", "low", "near", "zero"]),
            "lambdt": G.pick(rng, ["same", "same", "real", "other"]), "seed": G.rs(rng),
            "dist": G.pick(rng, ["normal", "eye", "sparse", "scaled", "nilpotent", "dominant"]), "passlen": bool(rng.random() < 0.5),
            "strided": bool(rng.random() < 0.2), "bias": bool(rng.random() < 0.4)}


def tdt(cplx, f):
    return {("f32", False): torch.float32, ("f64", False): torch.float64, ("f32", True): torch.complex64,
            ("f64", True): torch.complex128}[(f, cplx)]


def rnd(rng, cplx, *shape):
    v = rng.normal(size=shape)
    return v + 1j * rng.normal(size=shape) if cplx else v


def brute(cores, L, R, lamb):
    """ln of sum_{x,y} psi(x) conj(psi(y)) prod lamb[x_k, y_k] by enumeration."""
    n, d = cores.shape[:2]
    s = max(np.abs(cores).max(), 1e-300) if n else 1.0
    sl, sr, sm = max(np.abs(L).max(), 1e-300), max(np.abs(R).max(), 1e-300), max(np.abs(lamb).max(), 1e-300)
    psi = refs.amplitudes_all(cores / s, L / sl, R / sr)
    w = psi
    for k in range(n):
        w = np.moveaxis(np.tensordot(lamb / sm, w, axes=([0], [k])), 0, k)
    z = float((w * psi.conj()).sum().real)
    sum_abs = np.abs(psi)
    for k in range(n):
        sum_abs = np.moveaxis(np.tensordot(np.abs(lamb) / sm, sum_abs, axes=([0], [k])), 0, k)
    sum_abs = float((sum_abs * np.abs(psi)).sum())
    with np.errstate(divide="ignore"):
        return np.log(max(z, 0)) + 2 * n * math.log(s) + 2 * math.log(sl) + 2 * math.log(sr) + n * math.log(sm), z, sum_abs


def run(c, obs):
    from torchmps.mps_base import get_log_norm

    rng = np.random.default_rng(c["seed"])
    n, d, D, cp = c["n"], c["d"], c["D"], c["cplx"]
    dt = tdt(cp, c["dt"])
    eps = refs.eps_of(dt)
    if not c["uniform"] and n == 0:
        n = 1
    if c["what"] == "model":
        return run_model(c, obs)
    if c["what"] == "chains":
        return run_chains(c, rng, obs)
    shape = (d, D, D) if c["uniform"] else (n, d, D, D)
    v = rnd(rng, cp, *shape) / math.sqrt(D)
    if c["dist"] == "eye":
        v = 0.2 * v + np.eye(D)
    elif c["dist"] == "sparse":
        v = v * (rng.random(shape) < 0.6)
    elif c["dist"] == "scaled":
        v = v * 10.0 ** rng.uniform(-12, 12)
    elif c["dist"] == "nilpotent":
        v = v * np.triu(np.ones((D, D)), 1)
    elif c["dist"] == "dominant":
        # nearly deterministic: density matrices close to rank one
        v[..., 0, :, :] *= 10.0 ** rng.uniform(1, 4)
    core = torch.tensor(v).to(dt)
    if c["strided"]:
        core = core.transpose(-1, -2).contiguous().transpose(-1, -2)
    e = rnd(rng, cp, 2, D) * 10.0 ** (rng.uniform(-10, 10) if c["dist"] == "scaled" else 0)
    edge = torch.tensor(e).to(dt)
    cw, ew = refs.wide(core), refs.wide(edge)
    full = np.broadcast_to(cw, (n,) + cw.shape) if c["uniform"] else cw
    # the normalization matrix
    kind = c["lamb"]
    lam = None
    if kind == "scalar":
        lam = np.array(10.0 ** rng.uniform(-2, 2))
    elif kind == "diag":
        lam = np.abs(rng.normal(size=d)) * (rng.random(d) < 0.8) + (rng.random() < 0.5) * 0.1
    elif kind in ("full", "low", "near"):
        k = d if kind == "full" else 1
        x = rnd(rng, cp, d, k)
        lam = x @ x.conj().T
        if kind == "near":
            lam = np.eye(d) + 1e-3 * lam
    elif kind == "zero":
        lam = np.zeros(() if rng.random() < 0.3 else (d,) if rng.random() < 0.5 else (d, d))
    lt = None
    if lam is not None:
        ldt = dt
        if c["lambdt"] == "real" and not np.iscomplexobj(lam):
            ldt = tdt(False, c["dt"])
        elif c["lambdt"] == "other":
            ldt = tdt(np.iscomplexobj(lam), "f32" if c["dt"] == "f64" else "f64")
        if ldt.is_complex and not cp:
            ldt = ldt.to_real()
        lt = torch.tensor(lam).to(ldt)
        lam = refs.wide(lt)
        eps = max(eps, refs.eps_of(ldt)) if c["lambdt"] != "other" else eps
    mat = np.eye(d) if lam is None else lam * np.eye(d) if lam.ndim == 0 else np.diag(lam) if lam.ndim == 1 else lam
    length = n if c["uniform"] else (n if c["passlen"] else None)
    keep = [mon.bits(x) for x in (core, edge) + ((lt,) if lt is not None else ())]

    def call(co=core, ed=edge, ln=length, lm=lt):
        kw = {}
        if ln is not None:
            kw["length"] = ln
        if lm is not None:
            kw["lamb_mat"] = lm
        try:
            out = get_log_norm(co, ed, **kw)
        except AssertionError:
            # sums which vanish or get lost in rounding may be refused
            if math.isfinite(want) and rel < 0.5:
                raise
            obs.hit("refused")
            return math.nan
        need(isinstance(out, torch.Tensor) and out.ndim == 0, "no scalar tensor", got=str(out))
        need(not out.is_complex(), "complex log norm")
        obs.hit("calls")
        return float(out)

    want, rel = refs.log_norm(full, ew[0], ew[1], eps, mat, safety=8.0)
    if n <= 12 and d ** n <= 3000:
        bw, z, sum_abs = brute(full, ew[0], ew[1], mat)
        if z == 0:
            # nothing to take the logarithm of
            got = call()
            need(not math.isfinite(got) or want > -math.inf and rel > 0.5, "finite log norm of a vanishing sum", got=got)
            obs.hit("vanishing")
            return
        if rel < 0.5 and math.isfinite(want):
            # the enumeration has cancellation errors of its own
            loss = 1e-13 * sum_abs / z if z else 1.0
            if loss < 1e-3:
                if abs(bw - want) > 10 * loss + 1e-9 * (1 + abs(want)) + (rel if eps < 1e-10 else 1e-6):
                    raise RuntimeError(f"the two references disagree: {bw} {want}")
                obs.hit("enumerated")
    got = call()
    if not math.isfinite(want):
        need(not math.isfinite(got), "finite log norm of a vanishing sum", got=got)
        obs.hit("vanishing")
        return
    if rel > 0.5:
        obs.hit("ill_conditioned")
        return
    tol = rel + 32 * eps * (1 + abs(want) + n)
    need(abs(got - want) <= tol, "wrong log norm", got=got, want=want, tol=tol)
    obs.high("worst_error/tolerance", abs(got - want) / tol)
    obs.hit("values")
    if n > 1 and d > 1:
        obs.nontrivial(c["seed"])
    obs.state(c["lamb"], c["uniform"], cp, c["dt"], min(n, 12), c["dist"])

    def same(x, y, what, t=1.0):
        need(math.isfinite(x) and abs(x - y) <= 2 * t * tol, what, got=x, want=y, tol=tol)
        obs.hit("relations")

    # equivalent forms
    if kind == "none":
        same(call(lm=torch.tensor(1.0, dtype=tdt(False, c["dt"]))), got, "scalar one differs from no matrix")
        same(call(lm=torch.ones(d, dtype=dt)), got, "all-one diagonal differs from no matrix")
        same(call(lm=torch.eye(d, dtype=dt)), got, "identity matrix differs from no matrix")
    elif kind == "scalar":
        same(call(lm=lt.expand(d)), got, "constant diagonal differs from the scalar")
        same(call(lm=lt * torch.eye(d, dtype=lt.dtype)), got, "multiple of the identity differs from the scalar")
    elif kind == "diag":
        same(call(lm=torch.diag(lt)), got, "diagonal matrix differs from its diagonal")
        b = float(np.abs(rng.normal()) + 0.1)
        same(call(lm=lt * b), got + n * math.log(b), "scaled diagonal", 1 + 8 * n * refs.eps_of(lt.dtype) / tol)
    # shared core as a stack of per-site ones, and different lengths
    if c["uniform"] and n:
        same(call(co=core.expand((n,) + tuple(core.shape)), ln=None), got, "stacked cores differ from the shared core")
    # scaling of one core
    b = float(10 ** rng.uniform(-3, 3))
    if n and not c["uniform"]:
        k = int(rng.integers(n))
        co = core.clone()
        co[k] *= b
        same(call(co=co), got + 2 * math.log(b), "scaled core", 2)
    elif n:
        same(call(co=core * b), got + 2 * n * math.log(b), "scaled core", 2 + n * abs(math.log(b)) / (1 + abs(want)))
    # phases of the boundary vectors and reversal of the chain
    ph = np.exp(1j * rng.uniform(0, 6.28)) if cp else -1.0
    same(call(ed=torch.stack([edge[0] * ph, edge[1] / ph])), got, "phase of the boundary vectors")
    rev = core.transpose(-1, -2)
    if not c["uniform"]:
        rev = rev.flip(0)
    same(call(co=rev, ed=edge.flip(0)), got, "reversed chain", 2)
    # permuted symbols
    perm = torch.tensor(rng.permutation(d))
    lp = lt if lt is None or lt.ndim == 0 else lt[perm] if lt.ndim == 1 else lt[perm][:, perm]
    same(call(co=core[..., perm, :, :], lm=lp), got, "permuted symbols")
    # conjugation
    if cp:
        same(call(co=core.conj(), ed=edge.conj(), lm=lt.conj() if lt is not None else None), got, "conjugated chain")
    need([mon.bits(x) for x in (core, edge) + ((lt,) if lt is not None else ())] == keep, "arguments changed")


def run_chains(c, rng, obs):
    """Many nearly deterministic complex chains, whose density matrices are close to rank one."""
    from torchmps.mps_base import get_log_norm

    for _ in range(30):
        n, d, D = int(rng.integers(15, 60)), int(rng.integers(1, 3)), int(rng.integers(2, 4))
        v = rnd(rng, True, n, d, D, D)
        v[:, 0] *= 10.0 ** rng.uniform(0, 3)
        core, edge = torch.tensor(v).to(torch.complex64), torch.tensor(rnd(rng, True, 2, D)).to(torch.complex64)
        ew = refs.wide(edge)
        want, rel = refs.log_norm(refs.wide(core), ew[0], ew[1], 2.0**-23, safety=8.0)
        if rel > 0.5:
            obs.hit("ill_conditioned")
            continue
        got = float(get_log_norm(core, edge))
        need(abs(got - want) <= rel + 2.0**-18 * (1 + abs(want) + n), "wrong log norm", got=got, want=want, rel=rel)
        obs.hit("chains")


def run_model(c, obs):
    s = {"kind": "unif" if c["uniform"] else "fixed", "n": c["n"] if c["uniform"] else max(1, c["n"]), "d": c["d"], "D": c["D"],
         "cplx": c["cplx"], "bias": c["bias"], "init": "near_eye", "dtype": c["dt"], "emb": None, "seed": c["seed"],
         "dist": c["dist"] if c["dist"] in ("normal", "eye", "sparse", "scaled") else "normal"}
    model, _ = G.build_prob(s)
    ref = G.ProbRef(model, s)
    rng = np.random.default_rng(c["seed"])
    if not ref.usable:
        obs.hit("ill_conditioned")
        return
    got = float(model.log_norm(s["n"]) if s["kind"] == "unif" else model.log_norm())
    tol = ref.Zrel + 32 * ref.eps * (1 + abs(ref.logZ) + s["n"])
    need(abs(got - ref.logZ) <= tol, "wrong log norm of the model", got=got, want=ref.logZ, tol=tol)
    obs.hit("models")
    if s["kind"] == "unif":
        # lengths in any order from the same model
        for n in rng.permutation(12)[:4]:
            n = int(n)
            full = np.broadcast_to(ref.cores[0], (n,) + ref.cores[0].shape) if s["n"] else None
            if full is None:
                break
            want, rel = refs.log_norm(full, ref.L, ref.R, ref.eps)
            if rel < 0.5 and math.isfinite(want):
                got = float(model.log_norm(n))
                need(abs(got - want) <= rel + 32 * ref.eps * (1 + abs(want) + n), "wrong log norm of the model", n=n,
                     got=got, want=want)
                obs.hit("model_lengths")
    obs.nontrivial(c["seed"])
