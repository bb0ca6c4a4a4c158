"""C21: initializers produce the documented tensors (exact and statistical oracles)."""
import math

import numpy as np
import torch

from rtm import gen as G
from rtm import refs
from rtm.core import Skip, fail, need

CASES = {"quick": 3000, "thorough": 30000}
RULE = ("near_eye_init, normal_init, init_tensor and phaseify with random shapes, label orders, methods, noise levels, "
        "truncations, real and complex: noise-free parts compared exactly, noise recovered and tested for its mean, "
        "standard deviation, distribution (Kolmogorov-Smirnov), uniform phases and independence between entries, slices, "
        "sites, real and imaginary parts, and successive calls (all at about 1e-9 significance or stricter); freshly built models "
        "of every class: reproducible from the seed, different for different seeds, starting at the documented "
        "near-identity; invalid requests must be refused; non-trivial if statistics over at least 1000 entries were taken")
MIN = {"exact": 199, "exact_min_random_eye": 73, "exact_random_eye": 47, "exact_random_zero": 11,
       "identity_networks": 172, "independence_tests": 2035, "magnitude_tests": 159, "near_eye": 190,
       "net_models": 225, "normal": 150, "normal_tests": 408, "phase": 112, "phase_tests": 326, "prob_models": 112,
       "refused": 120, "reproducible": 337, "tensor": 337, "zero_bias": 20}
KINDS = ["near_eye", "near_eye", "normal", "normal", "tensor", "tensor", "tensor", "prob", "net", "net", "phase", "bad"]
Z = 6.5  # standard errors
KS = 3.4  # P < 2 exp(-2 KS^2) = 2e-10


def gen(rng, tier, idx):
    what = KINDS[idx % len(KINDS)]
    c = {"what": what, "seed": G.rs(rng), "cplx": bool(rng.random() < 0.5)}
    if what in ("near_eye", "normal"):
        D = G.ri(rng, 1, 12)
        shape = [G.ri(rng, 1, 6) for _ in range(G.pick(rng, [1, 1, 2, 2, 3]))] + [D, D]
        if rng.random() < 0.25:
            shape[-1] = G.ri(rng, 1, 12)
            if rng.random() < 0.8:
                shape[:-3] = [1] * len(shape[:-3])
        c.update(shape=shape, par=G.pick(rng, [None, 0.0, 1e-3, 0.1, 1.0, 3.0]))
    elif what == "tensor":
        k = G.pick(rng, [2, 3, 3, 4, 4, 5])
        chars = ["l", "r"] + [str(x) for x in rng.permutation(list("sioabc"))[: k - 2]]
        bond = "".join(str(x) for x in rng.permutation(chars))
        method = G.pick(rng, ["random_eye", "random_eye", "random_zero", "min_random_eye", "min_random_eye"])
        sq = rng.random() < 0.5
        D = G.ri(rng, 1, 8)
        c.update(bond=bond, shape=[(D if sq else G.ri(rng, 1, 8)) if ch in "lr" else G.ri(rng, 1, 4) for ch in bond],
                 method=method, std=G.pick(rng, [0.0, 0.0, 1e-9, 1e-3, 0.5, None]), dim=G.ri(rng, 0, 9))
        if method == "min_random_eye" and c["std"] is None:
            c["std"] = 0.0
    elif what == "prob":
        s = G.prob_spec(rng, emb=False, dtypes=("f32",), dist="asis", dmax=5, Dmax=8, cplx=c["cplx"])
        s["n"] = max(1, s["n"])
        c["spec"] = s
    elif what == "net":
        if rng.random() < 0.6:
            s = G.mps_spec(rng, path=False, dtypes=("f32",), Dmax=6)
            s["dist"] = "init"
            s["bias"] = not s["adaptive"]
            s["init_std"] = G.pick(rng, [None, 0.0, 1e-9, 1e-4])
            c["spec"] = s
        else:
            s = G.ti_spec(rng, dtypes=("f32",))
            s["dist"] = "init"
            s["bias"] = True
            c["spec"] = s
            c["init_std"] = G.pick(rng, [None, 0.0, 1e-4])
    elif what == "phase":
        c.update(shape=[G.ri(rng, 1, 30), G.ri(rng, 1, 60)], dt=G.pick(rng, ["f32", "f64"]))
    return c


def run(c, obs):
    torch.manual_seed(c["seed"])
    globals()["do_" + c["what"]](c, np.random.default_rng(c["seed"]), obs)
    obs.state(c["what"], str(c.get("shape")), c.get("bond"), c.get("method"), c.get("std"), c.get("par"), c.get("cplx"),
              str({k: v for k, v in c.get("spec", {}).items() if k != "seed"}))


# ------------------------------------------------------------------ statistics

_erf = np.vectorize(math.erf)


def ks(u):
    """scaled KS statistic of values that should be uniform on (0, 1)"""
    u = np.sort(np.asarray(u, float).ravel())
    n = len(u)
    k = np.arange(1, n + 1)
    return max(np.max(k / n - u), np.max(u - (k - 1) / n)) * math.sqrt(n)


def normal_ok(obs, z, what):
    """z should be independent standard normals, rows along axis 0"""
    f = np.asarray(z, float).ravel()
    n = f.size
    need(np.isfinite(f).all(), f"{what}: not finite")
    if n < 30:
        return
    need(abs(f.mean()) < Z / math.sqrt(n), f"{what}: mean is off", mean=f.mean(), n=n)
    # chi-square: sum of squares, Wilson-Hilferty
    q = ((f**2).mean()) ** (1 / 3)
    sd = math.sqrt(2 / (9 * n))
    need(abs(q - (1 - 2 / (9 * n))) < Z * sd, f"{what}: standard deviation is off", ratio=math.sqrt((f**2).mean()), n=n)
    d = ks(0.5 * (1 + _erf(f / math.sqrt(2))))
    obs.high("ks", d)
    need(d < KS, f"{what}: not normally distributed", ks=d, n=n)
    obs.hit("normal_tests")


def uniform_phase(obs, z, what):
    z = np.asarray(z).ravel()
    z = z[np.abs(z) > 0]
    n = z.size
    if n < 30:
        return
    d = ks((np.angle(z) / (2 * np.pi)) % 1.0)
    obs.high("ks", d)
    need(d < KS, f"{what}: phases are not uniform", ks=d, n=n)
    for k in (1, 2, 3, 4):
        m = np.mean((z / np.abs(z)) ** k)
        need(abs(m) < Z / math.sqrt(n), f"{what}: phases are not uniform (moment {k})", moment=m, n=n)
    obs.hit("phase_tests")


def noise_ok(obs, z, cplx, what):
    """z: (calls, ...) of standardized noise"""
    z = np.asarray(z)
    if not cplx:
        need(not np.iscomplexobj(z), f"{what}: complex")
        normal_ok(obs, z, what)
    else:
        need(np.iscomplexobj(z), f"{what}: not complex")
        f = np.abs(z).ravel()
        n = f.size
        if n >= 30:
            q = ((f**2).mean()) ** (1 / 3)
            need(abs(q - (1 - 2 / (9 * n))) < Z * math.sqrt(2 / (9 * n)), f"{what}: standard deviation is off",
                 ratio=math.sqrt((f**2).mean()), n=n)
            d = ks(_erf(f / math.sqrt(2)))
            obs.high("ks", d)
            need(d < KS, f"{what}: magnitudes are not those of normal numbers", ks=d, n=n)
            obs.hit("magnitude_tests")
        uniform_phase(obs, z, what)
    independent(obs, z, what)


def independent(obs, z, what):
    """correlations between shifted entries along each axis (and magnitudes) must vanish"""
    z = np.asarray(z)
    for ax in range(z.ndim):
        if z.shape[ax] < 2:
            continue
        a, b = np.moveaxis(z, ax, 0)[:-1], np.moveaxis(z, ax, 0)[1:]
        n = a.size
        if n < 60:
            continue
        r = abs(np.mean(a * np.conj(b)))
        need(r < (Z + 1.5) / math.sqrt(n), f"{what}: entries are correlated along axis {ax}", corr=r, n=n)
        aa, bb = np.abs(a) ** 2 - 1, np.abs(b) ** 2 - 1
        # squares have heavier tails: variance 2 each
        r = abs(np.mean(aa * bb)) / 2
        need(r < 16 / math.sqrt(n), f"{what}: magnitudes are correlated along axis {ax}", corr=r, n=n)
        need(not (np.abs(a - b) < 1e-12 * np.abs(a)).mean() > 0.05, f"{what}: repeated entries along axis {ax}")
        obs.hit("independence_tests")


# ------------------------------------------------------------------ functions


def repeats(shape, want=4000, cap=200):
    n = int(np.prod(shape))
    return max(2, min(cap, want // max(n, 1)))


def eye_of(shape):
    return np.broadcast_to(np.eye(shape[-2], shape[-1]), shape)


def do_near_eye(c, rng, obs):
    from torchmps.mps_base import near_eye_init

    shape = tuple(c["shape"])
    kw = {} if c["par"] is None else {"noise": c["par"]}
    noise = 1e-3 if c["par"] is None else c["par"]
    if shape[-1] != shape[-2] and int(np.prod(shape[:-3])) != 1:
        return refused(obs, lambda: near_eye_init(shape, is_complex=c["cplx"], **kw), "batch of non-square slices")
    outs = [near_eye_init(shape, is_complex=c["cplx"], **kw) for _ in range(repeats(shape))]
    check_outs(outs, shape, c["cplx"])
    z = np.stack([refs.wide(t) for t in outs]) - eye_of(shape)
    if noise == 0:
        need(not z.any(), "noise-free core is not the identity")
        obs.hit("exact")
        return
    size = noise / math.sqrt(shape[-1] * shape[-2])
    # the unit entries swallow small noise in single precision
    z = z / size
    if noise < 1e-2:
        keep = np.broadcast_to(eye_of(shape) == 0, z.shape)
        off = z[keep]
        normal_ok(obs, off, "noise") if not c["cplx"] else uniform_phase(obs, off, "noise")
        need(np.abs(z).max() < 9 + 2.0**-22 / size, "noise too large", worst=np.abs(z).max())
        if off.size >= 1000:
            if c["cplx"]:
                q = math.sqrt((np.abs(off) ** 2).mean())
                need(abs(q - 1) < Z / math.sqrt(2 * off.size) * 1.2, "noise: standard deviation is off", ratio=q, n=off.size)
            obs.nontrivial(c["seed"])
        # what is left on the diagonal must be noise, too
        on = z[~keep]
        if on.size >= 200:
            q = math.sqrt((np.abs(on) ** 2).mean())
            need(abs(q - 1) < Z / math.sqrt(2 * on.size) * 1.2 + 2.0**-22 / size, "no noise on the diagonal", ratio=q)
    else:
        noise_ok(obs, z, c["cplx"], "noise")
        if z.size >= 1000:
            obs.nontrivial(c["seed"])
    obs.hit("near_eye")


def do_normal(c, rng, obs):
    from torchmps.mps_base import normal_init

    shape = tuple(c["shape"])
    kw = {} if c["par"] is None else {"rel_std": c["par"]}
    rel = 1.0 if c["par"] is None else c["par"]
    if shape[-1] != shape[-2] and int(np.prod(shape[:-3])) != 1:
        return refused(obs, lambda: normal_init(shape, is_complex=c["cplx"], **kw), "batch of non-square slices")
    if shape[-1] != shape[-2]:
        return  # which bond dimension the scale refers to is not specified
    outs = [normal_init(shape, is_complex=c["cplx"], **kw) for _ in range(repeats(shape))]
    check_outs(outs, shape, c["cplx"])
    z = np.stack([refs.wide(t) for t in outs])
    if rel == 0:
        need(not z.any(), "entries of standard deviation zero are not zero")
        obs.hit("exact")
        return
    noise_ok(obs, z * shape[-1] / rel, c["cplx"], "entries")
    if z.size >= 1000:
        obs.nontrivial(c["seed"])
    obs.hit("normal")


def check_outs(outs, shape, cplx):
    for t in outs:
        need(tuple(t.shape) == tuple(shape), "wrong shape", got=tuple(t.shape), want=shape)
        need(t.is_complex() == cplx, "wrong type of entries", got=str(t.dtype))
        need(t.dtype == (torch.complex64 if cplx else torch.float32), "not of the default precision", got=str(t.dtype))
        need(not t.requires_grad, "initial tensor requires gradients")
    # entries must not share memory (they become parameters, changed in place)
    t = outs[0]
    if t.numel() > 1:
        strides = [st for st, n in zip(t.stride(), t.shape) if n > 1]
        need(all(st != 0 for st in strides), "entries of the initial tensor share memory")


def do_tensor(c, rng, obs):
    from torchmps.utils import init_tensor

    bond, shape, method, std = c["bond"], c["shape"], c["method"], c["std"]
    if std is None:
        m = method
    elif method == "min_random_eye":
        m = (method, std, c["dim"])
    else:
        m = (method, std)
    s = 1e-9 if std is None else std
    want = np.zeros(shape)
    il, ir = bond.index("l"), bond.index("r")
    Dl, Dr = shape[il], shape[ir]
    if method != "random_zero":
        k = min(Dl, Dr) if method == "random_eye" else min(c["dim"], Dl, Dr)
        e = np.zeros((Dl, Dr))
        e[np.arange(k), np.arange(k)] = 1
        want = np.moveaxis(np.broadcast_to(e, [n for i, n in enumerate(shape) if i not in (il, ir)] + [Dl, Dr]), (-2, -1), (il, ir))
    outs = [init_tensor(bond_str=bond, shape=list(shape) if rng.random() < 0.5 else tuple(shape), init_method=m)
            for _ in range(repeats(shape) if s > 0 else 2)]
    check_outs(outs, shape, False)
    z = np.stack([refs.wide(t) for t in outs]) - want
    if s == 0:
        need(not z.any(), "noise-free part is wrong", method=method, bond=bond, shape=shape)
        obs.hit("exact")
        obs.hit("exact_" + method)
    else:
        z = z / s
        keep = np.broadcast_to(want == 0, z.shape) if s < 1e-2 else np.ones(z.shape, bool)
        need((np.abs(z) < 9 + 2.0**-22 / s).all(), "noise too large or noise-free part wrong", worst=np.abs(z).max())
        normal_ok(obs, z[keep], "noise")
        if keep.all():
            independent(obs, z, "noise")
        if keep.sum() >= 1000:
            obs.nontrivial(c["seed"])
    obs.hit("tensor")


def do_phase(c, rng, obs):
    from torchmps.utils2 import phaseify

    t = torch.tensor(rng.normal(size=c["shape"])).to(G.F[c["dt"]])
    t0 = t.clone()
    outs = [phaseify(t) for _ in range(4)]
    need(torch.equal(t, t0), "input of phaseify changed")
    z = []
    for o in outs:
        need(tuple(o.shape) == tuple(t.shape) and o.is_complex(), "wrong kind of result")
        need(o.dtype == (torch.complex64 if c["dt"] == "f32" else torch.complex128), "precision lost", got=str(o.dtype))
        w = refs.wide(o)
        need(np.allclose(np.abs(w), np.abs(refs.wide(t)), rtol=1e-5, atol=0), "magnitudes changed")
        z.append(w / refs.wide(t))
    z = np.stack(z)
    uniform_phase(obs, z, "phases")
    for ax in range(3):
        a, b = np.moveaxis(z, ax, 0)[:-1], np.moveaxis(z, ax, 0)[1:]
        if a.size > 60:
            need(abs(np.mean(a * b.conj())) < (Z + 1) / math.sqrt(a.size), f"phases are correlated along axis {ax}")
            obs.hit("independence_tests")
    if z.size > 1000:
        obs.nontrivial(c["seed"])
    obs.hit("phase")


# ------------------------------------------------------------------ models


def params(model):
    return {k: p.detach().clone() for k, p in model.state_dict().items()}


def same(a, b):
    return set(a) == set(b) and all(torch.equal(a[k], b[k]) for k in a)


def do_prob(c, rng, obs):
    s = c["spec"]
    a, b = params(G.build_prob(s)[0]), params(G.build_prob(s)[0])
    need(same(a, b), "models built from the same seed differ")
    models = [G.build_prob(dict(s, seed=s["seed"] + 1 + k))[0] for k in range(repeats(a["core_tensors"].shape, 3000, 60))]
    cores = np.stack([refs.wide(m.core_tensors) for m in models])
    need(not np.array_equal(refs.wide(a["core_tensors"]), cores[0]), "models built from different seeds agree")
    obs.hit("reproducible")
    want = ((s["n"],) if s["kind"] == "fixed" else ()) + (s["d"], s["D"], s["D"])
    need(cores.shape[1:] == want, "wrong shape of the cores", got=cores.shape[1:])
    need(np.iscomplexobj(cores) == s["cplx"], "wrong type of the cores")
    if s["init"] == "near_eye":
        z = (cores - np.eye(s["D"])) * s["D"] / 1e-3
        keep = np.broadcast_to(np.eye(s["D"]) == 0, z.shape)
        need(np.abs(z).max() < 9 + 2.0**-22 * s["D"] / 1e-3, "cores are not near the identity", worst=np.abs(z).max())
        off = z[keep]
        if not s["cplx"]:
            normal_ok(obs, off, "noise of the cores")
        else:
            uniform_phase(obs, off, "noise of the cores")
    else:
        noise_ok(obs, cores * s["D"], s["cplx"], "cores")
    e = np.stack([refs.wide(m.edge_vecs) for m in models])
    need(np.isfinite(e).all() and e.shape[1:] == (2, s["D"]), "boundary vectors are not finite or of wrong shape")
    need(np.iscomplexobj(e) == s["cplx"], "wrong type of the boundary vectors")
    if e.size > 1:
        need(len(np.unique(np.abs(e[:, 0]))) > e[:, 0].size * 0.9, "boundary vectors are not random")
    # independence of the boundary vectors from the first core
    n0 = min(s["D"], s["D"] ** 2)
    f = cores.reshape(len(models), -1)[:, -n0:]
    g = e[:, 0]
    if s["init"] == "normal" and f.size > 100:
        r = np.mean(f * s["D"] * (g * math.sqrt(s["D"])).conj())
        need(abs(r) < 10 / math.sqrt(f.size), "boundary vectors correlate with the cores", corr=r)
        obs.hit("independence_tests")
    if s["bias"]:
        need(all(not refs.wide(m.bias_mat).any() for m in models), "bias matrices do not start at zero")
        obs.hit("zero_bias")
    if cores.size >= 1000:
        obs.nontrivial(c["seed"])
    obs.hit("prob_models")


def do_net(c, rng, obs):
    s = c["spec"]

    def build(seed):
        q = dict(s, seed=seed)
        if s["kind"] == "mps":
            return G.build_mps(q)
        from torchmps import TI_MPS

        torch.manual_seed(seed)
        kw = {} if c["init_std"] is None else {"init_std": c["init_std"]}
        return TI_MPS(output_dim=s["o"], bond_dim=s["D"], feature_dim=s["d"], parallel_eval=s["par"],
                      fixed_ends=s["fixed_ends"], use_bias=True, fixed_bias=s["fixed_bias"], **kw)

    std = s.get("init_std") if s["kind"] == "mps" else c["init_std"]
    std = 1e-9 if std is None else std
    m = build(s["seed"])
    a = params(m)
    need(same(a, params(build(s["seed"]))), "models built from the same seed differ")
    obs.hit("reproducible")
    other = params(build(s["seed"] + 1))
    if std > 1e-8:
        need(not same(a, other), "models built from different seeds agree")
    # noise: deviations of all entries from the nearest of 0 and 1
    z = []
    for k, t in a.items():
        if t.is_floating_point() and "terminal" not in k and ("linear_region" in k or "core" in k or "bias" in k):
            w = refs.wide(t)
            z.append((w - np.round(w))[np.round(w) == 0])
            need(np.isin(np.round(w), (0, 1)).all() and np.abs(w - np.round(w)).max(initial=0) < 9 * std + 2.0**-22,
                 "parameter is not a (truncated) identity plus noise", name=k)
    z = np.concatenate(z) if z else np.zeros(0)
    z = z[z != 0]  # fixed entries
    if std > 1e-6 and z.size > 200 and not s.get("adaptive"):  # (merged cores hold sums of products)
        normal_ok(obs, z / std, "noise of the parameters")
    elif std == 0:
        need(z.size == 0, "noise despite init_std=0")
    # near-identity: the outputs on any data are those of the identity network
    B = 3
    if s["kind"] == "mps":
        x = torch.tensor(rng.uniform(size=(B, s["n"], s["d"]))).float()
        x = x / x.sum(-1, keepdim=True)
        want = 1.0
        if s["pbc"]:
            want = min(s["o"], s["D"]) if s["adaptive"] else s["D"]
        tol = 1e-5 * s["D"] + 60 * std * (s["n"] + 2) * s["D"] ** 2 * s["d"]
    else:
        if not s["fixed_ends"]:
            obs.hit("net_models")
            return
        x = torch.tensor(rng.uniform(size=(B, 4, s["d"]))).float()
        x = x / x.sum(-1, keepdim=True)
        want, tol = 1.0, 1e-5 * s["D"] + 60 * std * 6 * s["D"] ** 2 * s["d"]
    with torch.no_grad():
        out = refs.wide(m(x))
    need(np.abs(out - want).max() < tol * max(1, want), "fresh network is not near the identity", got=out[:2], want=want)
    obs.hit("identity_networks")
    obs.hit("net_models")
    if z.size >= 200:
        obs.nontrivial(c["seed"])


# ------------------------------------------------------------------ refusals


def refused(obs, f, what):
    try:
        f()
    except (AssertionError, ValueError, TypeError, RuntimeError, IndexError, KeyError):
        obs.hit("refused")
        return
    fail(f"accepted: {what}")


def do_bad(c, rng, obs):
    from torchmps import MPS, TI_MPS, ProbMPS
    from torchmps.mps_base import near_eye_init, normal_init
    from torchmps.utils import init_tensor

    k = int(rng.integers(9))
    D = int(rng.integers(2, 5))
    if k == 0:
        refused(obs, lambda: init_tensor([D, D, 2], "lri", ("random_ey", 1e-3)), "unknown method")
    elif k == 1:
        refused(obs, lambda: init_tensor([D, D], "lri", ("random_eye", 1e-3)), "labels which do not match the shape")
    elif k == 2:
        refused(obs, lambda: init_tensor([D, D, 2], "llr", ("random_zero", 1e-3)), "repeated labels")
    elif k == 3:
        refused(obs, lambda: init_tensor([D, D, 2], "lai", ("random_eye", 1e-3)), "identity without a right label")
    elif k == 4:
        refused(obs, lambda: near_eye_init((D, D)), "core of order two")
    elif k == 5:
        refused(obs, lambda: normal_init((3, 2, D, D + 1)), "batch of non-square slices")
    elif k == 6:
        refused(obs, lambda: ProbMPS(3, 2, D, init_method="eye"), "unknown method")
    elif k == 7:
        refused(obs, lambda: TI_MPS(output_dim=D + 1, bond_dim=D, fixed_ends=True), "fixed ends with too many outputs")
    else:
        refused(obs, lambda: init_tensor([D, D, 2], "rai", ("min_random_eye", 1e-3, 2)), "identity without a left label")
