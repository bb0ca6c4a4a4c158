"""C31: chains composed by hand from the site modules compute the contraction they describe."""
import numpy as np
import torch

from rtm import gen as G
from rtm import refs
from rtm.core import fail, need

CASES = {"quick": 5000, "thorough": 80000}
RULE = ("random ordered lists of input sites (rectangular), input regions (no, default, shared or per-site, fixed or "
        "trainable bias, ephemeral), merged inputs, at most one output site or merged output, with matching bond "
        "dimensions, open or periodic, serial or parallel; evaluated repeatedly with random batches, leaf inputs, "
        "rescaled and overwritten cores, slices of regions; outputs, gradients, lengths, core norms compared with a NumPy contraction of "
        "the modules; boundary modules (initial vector, terminal matrix) of every kind; wrong inputs; non-trivial if the "
        "chain has at least two modules")
MIN = {"chains": 4670, "ends": 374, "gradients": 3847, "outputs_decided": 79904, "parts": 679, "rectangular": 1881,
       "refused": 1743, "refused_lists": 6747, "rescaled": 3262, "without_output": 735}


def gen(rng, tier, idx):
    if idx % 6 == 5:
        D = G.ri(rng, 1, 5)
        return {"kind": "ends", "D": D, "o": G.ri(rng, 1, 5), "fill": G.pick(rng, [None, 0, 1, D]), "fixed": bool(rng.random() < 0.5),
                "left": bool(rng.random() < 0.5), "seed": G.rs(rng)}
    d = G.ri(rng, 1, 3)
    mods, D = [], G.ri(rng, 1, 4) if idx % 25 else G.pick(rng, [16, 17, 33])
    first = D
    k = G.ri(rng, 1, 6)
    out = G.ri(rng, 0, k - 1) if rng.random() < 0.85 else None
    for i in range(k):
        last = i == k - 1
        if i == out:
            kind = G.pick(rng, ["out", "mout"])
        else:
            kind = G.pick(rng, ["site", "region", "region", "merged"])
        new = D
        if kind in ("site", "out", "mout") and rng.random() < 0.4:
            new = G.ri(rng, 1, 4)
        m = {"kind": kind, "l": D, "r": new}
        if kind == "region":
            m.update(s=G.pick(rng, [1, 1, 2, 3, 0]), bias=G.pick(rng, [None, None, "eye", "mat", "one", "site"]),
                     fixed=bool(rng.random() < 0.5), eph=bool(rng.random() < 0.25))
            if m["s"] == 0:
                m["s"] = 4
        if kind == "merged":
            m["s"] = G.ri(rng, 1, 2)
        if kind == "mout":
            m["left"] = bool(rng.random() < 0.5)
        mods.append(m)
        D = new
    c = {"kind": "chain", "mods": mods, "d": d, "o": G.ri(rng, 1, 4), "pbc": bool(first == D and rng.random() < 0.5),
         "par": bool(rng.random() < 0.5), "dtype": G.pick(rng, ["f32", "f64"]), "seed": G.rs(rng),
         "dist": G.pick(rng, ["normal", "normal", "sparse", "big"]),
         "steps": [G.pick(rng, ["eval", "eval", "grad", "rescale", "set", "bad", "part"]) for _ in range(G.ri(rng, 2, 5))] + ["eval"]}
    if idx % 25 in (7, 13):
        ax = G.pick(rng, ["B", "d", "s", "s", "o"])
        regions = [m for m in mods if m["kind"] == "region"]
        if ax == "B":
            c["B"] = G.pick(rng, [65, 131, 310, 600])
        elif ax == "d":
            c["d"] = G.pick(rng, [17, 33, 65])
        elif ax == "o":
            c["o"] = G.pick(rng, [17, 33, 65])
        elif regions:
            G.pick(rng, regions)["s"] = G.pick(rng, [21, 33, 65, 100, 140])
            c.update(dist="pos", dtype="f64")  # (without cancellations)
    return c


def build(c, rng):
    from torchmps import torchmps as M

    dt = G.F[c["dtype"]]
    d, o = c["d"], c["o"]

    def core(*shape):
        v = rng.normal(size=shape) / np.sqrt(max(1, shape[1]))
        if c["dist"] == "pos":
            v = np.abs(v) * 1.57 / d / np.sqrt(max(1, shape[1]))
        if c["dist"] == "sparse":
            v = v * (rng.random(shape) < 0.6)
        if c["dist"] == "big":
            v = v * 10.0 ** G.ri(rng, -2, 2)
        t = torch.tensor(v).to(dt)
        if rng.random() < 0.2:
            t = t.transpose(-1, 0).contiguous().transpose(-1, 0)
        return t

    mods = []
    for m in c["mods"]:
        l, r, k = m["l"], m["r"], m["kind"]
        if k == "site":
            x = M.InputSite(core(l, r, d))
        elif k == "out":
            x = M.OutputSite(core(o, l, r))
        elif k == "mout":
            x = M.MergedOutput(core(o, l, r, d), m["left"])
        elif k == "merged":
            x = M.MergedInput(core(m["s"], l, r, d, d))
        else:
            b = m["bias"]
            bm = {None: None, "eye": None, "mat": lambda: core(l, r), "one": lambda: core(1, l, r),
                  "site": lambda: core(m["s"], l, r)}[b]
            x = M.InputRegion(core(m["s"], l, r, d), use_bias=b is not None, fixed_bias=m["fixed"],
                              bias_mat=bm() if bm else None, ephemeral=m["eph"])
        mods.append(x.to(dt))
    return mods, M.LinearRegion(list(mods), periodic_bc=c["pbc"], parallel_eval=c["par"])


def value(c, tensors, x, ones):
    """(B,) or (B, o) contraction; tensors: list of (core, bias) float64 torch tensors, x: (B, n, d)."""
    B = x.shape[0]
    l0 = c["mods"][0]["l"]
    start = torch.eye(l0, dtype=x.dtype)
    v = (start if c["pbc"] else start[:1])[None, :, None].expand(B, -1, 1, l0)  # (B, closing, outputs, bond)
    i = 0
    for m, (t, b) in zip(c["mods"], tensors):
        k = m["kind"]
        if k == "site":
            v = torch.einsum("bcol,lri,bi->bcor", v, t, x[:, i])
            i += 1
        elif k == "region":
            for j in range(m["s"]):
                a = torch.einsum("lri,bi->blr", t[j], x[:, i])
                if b is not None:
                    a = a + (b[0] if b.shape[0] == 1 else b[j])
                v = torch.einsum("bcol,blr->bcor", v, a)
                i += 1
        elif k == "merged":
            for j in range(m["s"]):
                v = torch.einsum("bcol,lrij,bi,bj->bcor", v, t[j], x[:, i], x[:, i + 1])
                i += 2
        elif k == "out":
            v = torch.einsum("bcl,olr->bcor", v[:, :, 0], t)
        elif k == "mout":
            v = torch.einsum("bcl,olri,bi->bcor", v[:, :, 0], t, x[:, i])
            i += 1
    v = torch.einsum("bcoc->bo", v) if c["pbc"] else v[:, 0, :, 0]
    return v if any(m["kind"] in ("out", "mout") for m in c["mods"]) else v[:, 0]


def wide(mods, f):
    out = []
    for m in mods:
        b = m.bias_mat if getattr(m, "use_bias", False) else None
        out.append((f(m.tensor), None if b is None else f(b if b.ndim == 3 else b[None])))
    return out


def leaf(t):
    return t.detach().double().clone().requires_grad_(True)


def leafabs(t):
    return t.detach().double().abs().requires_grad_(True)


def part(c, mods, rng, gam, obs):
    """A slice of an input region acts as that part of it; an entry of one without bias as that site."""
    from torchmps import torchmps as M

    js = [j for j, m in enumerate(c["mods"]) if m["kind"] == "region"]
    if not js:
        return
    j = G.pick(rng, js)
    m, x = c["mods"][j], mods[j]
    s, dt, d = m["s"], G.F[c["dtype"]], c["d"]
    before = refs.wide(x.tensor).copy()
    ends = [None, 0, 1, 2, s, -1, s + 2]
    key = slice(G.pick(rng, ends), G.pick(rng, ends), G.pick(rng, [None, None, 1, 2]))
    sites = list(range(s))[key]
    y = x[key]
    need(isinstance(y, M.InputRegion) and len(y) == len(sites) == y.core_len(), "slice of a region: number of sites",
         got=len(y), want=len(sites))
    B = G.ri(rng, 1, 3)
    t = torch.tensor(rng.normal(size=(B, len(sites), d))).to(dt)
    with torch.no_grad():
        got = y(t).tensor
    W = wide([x], lambda u: refs.wide(u))[0]
    T, bias = W
    xs = refs.wide(t)
    ref = np.einsum("slri,bsi->bslr", T[sites], xs)
    bnd = np.einsum("slri,bsi->bslr", np.abs(T[sites]), np.abs(xs))
    if bias is not None:
        b = bias if bias.shape[0] == 1 else bias[sites]
        ref, bnd = ref + b, bnd + np.abs(b)
    G.check_out(got, ref, gam * bnd + 1e-30, "matrices of a slice of a region", obs, dt)
    if bias is None:
        i = G.ri(rng, 0, s - 1)
        z = x[i]
        need(isinstance(z, M.InputSite) and (refs.wide(z.tensor) == T[i]).all(), "entry of a region")
    need((refs.wide(x.tensor) == before).all(), "taking parts of a region changes it")
    obs.hit("parts")


def chain(c, obs):
    rng = np.random.default_rng(c["seed"])
    mods, region = build(c, rng)
    dt = G.F[c["dtype"]]
    eps = G.eps_s(c)
    d = c["d"]
    n = sum({"site": 1, "mout": 1, "out": 0}.get(m["kind"], (2 if m["kind"] == "merged" else 1) * m.get("s", 0)) for m in c["mods"])
    cores = sum({"site": 1, "mout": 2, "out": 1}.get(m["kind"], (2 if m["kind"] == "merged" else 1) * m.get("s", 0))
                for m in c["mods"])
    has_out = any(m["kind"] in ("out", "mout") for m in c["mods"])
    Dm = max(max(m["l"], m["r"]) for m in c["mods"])
    gam = 8 * eps * (n + 4) * (2 * Dm + d * d + 6) * (Dm if c["pbc"] else 1)
    # the parameters of the chain are those of its modules
    want = []
    for m, x in zip(c["mods"], mods):
        if not m.get("eph"):
            want.append(x.tensor)
            if m["kind"] == "region" and m["bias"] and not m["fixed"]:
                want.append(x.bias_mat)
    got = [p for p in region.parameters() if p.numel()]  # (an unused bias is an empty parameter)
    need(len(got) == len(want) and all(any(a is b for b in got) for a in want), "parameters of the chain", got=len(got),
         want=len(want))
    need(all(p.requires_grad for p in got), "a parameter of the chain is not trainable")
    for st in c["steps"]:
        need(len(region) == n, "len of the chain", got=len(region), want=n)
        need(region.core_len() == cores, "number of cores of the chain", got=region.core_len(), want=cores)
        if st == "rescale":
            for m, x in zip(c["mods"], mods):
                old = refs.wide(x.tensor)
                num = old.shape[0] if m["kind"] in ("region", "merged") else 1
                norms = x.get_norm()
                parts = list(old) if m["kind"] in ("region", "merged") else [old]
                need(len(norms) == num, "number of core norms")
                for a, b in zip(norms, parts):
                    refs.close(refs.wide(a), np.linalg.norm(b.ravel()), 8 * eps * b.size * (np.linalg.norm(b.ravel()) + 1e-30), "core norm")
                scales = [float(2.0 ** rng.uniform(-1, 1)) for _ in range(num)]
                if num == 1 and m["kind"] not in ("region", "merged") and rng.random() < 0.5:
                    x.rescale_norm(scales[0])
                else:
                    x.rescale_norm([torch.tensor(q, dtype=dt) for q in scales] if rng.random() < 0.5 else scales)
                sc = np.array(scales).reshape((-1,) + (1,) * (old.ndim - 1)) if m["kind"] in ("region", "merged") else scales[0]
                refs.close(refs.wide(x.tensor), old * sc, 4 * eps * np.abs(old * sc) + 1e-37, "rescaled core")
                obs.hit("rescaled")
            continue
        if st == "part":
            part(c, mods, rng, gam, obs)
            continue
        if st == "set":
            with torch.no_grad():
                for p in region.parameters():
                    p.mul_(torch.tensor(rng.uniform(-1.5, 1.5, size=tuple(p.shape))).to(dt))
            continue
        B = c.get("B") or G.pick(rng, [1, 1, 2, 3, 5])
        if st == "bad":
            bad = [torch.zeros(B, n + 1, d, dtype=dt), torch.zeros(B, n, dtype=dt), torch.zeros(B, n, d, 1, dtype=dt)]
            if n:
                bad += [torch.zeros(B, n, d + 1, dtype=dt), torch.zeros(B, n - 1, d, dtype=dt)]
            t = bad[G.ri(rng, 0, len(bad) - 1)]
            try:
                region(t)
            except Exception:
                obs.hit("refused")
            else:
                fail("input which does not fit the chain was accepted", shape=tuple(t.shape), n=n, d=d)
            continue
        t = torch.tensor(rng.normal(size=(B, n, d))).to(dt)
        if c["dist"] == "pos":
            t = t.abs()
        if rng.random() < 0.2:
            t = t.transpose(0, 1).contiguous().transpose(0, 1)
        t.requires_grad_(st == "grad" and bool(rng.random() < 0.6))
        with torch.set_grad_enabled(st == "grad" or bool(rng.random() < 0.3)):
            out = region(t)
        need(isinstance(out, torch.Tensor), "output of a chain is not a tensor")
        lv = wide(mods, leaf)
        av = wide(mods, leafabs)
        x = leaf(t)
        xa = leafabs(t)
        ref = value(c, lv, x, None)
        bnd = value(c, av, xa, None)
        if n == 0 and tuple(out.shape) != tuple(ref.shape):
            need(tuple(out.shape) == tuple(ref.shape[1:]), "shape of the output of a chain without inputs")
            out = out.expand(ref.shape)
        need(tuple(out.shape) == tuple(ref.shape), "output shape of the chain", got=tuple(out.shape), want=tuple(ref.shape))
        G.check_out(out, ref.detach().numpy(), gam * bnd.detach().numpy() + 1e-30, "output of the chain", obs, dt)
        if st == "grad" and out.requires_grad:
            for p in list(region.parameters()) + [t]:
                p.grad = None
            W = torch.tensor(rng.normal(size=tuple(ref.shape)))
            (out * W.to(dt)).sum().backward()
            flat = [u for a, b in lv for u in (a, b) if u is not None] + [x]
            aflat = [u for a, b in av for u in (a, b) if u is not None] + [xa]
            gr = torch.autograd.grad((ref * W).sum(), flat, allow_unused=True)
            ga = torch.autograd.grad((bnd * W.abs()).sum(), aflat, allow_unused=True)
            have = [u for m in mods for u in (m.tensor, m.bias_mat if getattr(m, "use_bias", False) else None) if u is not None] + [t]
            for u, g, a in zip(have, gr, ga):
                if not u.requires_grad:
                    continue
                if g is None:
                    continue
                need(u.grad is not None, "a module of the chain got no gradient")
                refs.close(refs.wide(u.grad).reshape(g.shape), g.numpy(), 2 * gam * a.numpy() + 1e-30, "gradient of a module of the chain")
                obs.hit("gradients")
        obs.hit("chains")
        obs.hit("without_output", int(not has_out))
        obs.hit("rectangular", int(any(m["l"] != m["r"] for m in c["mods"])))
    obs.state(*[(m["kind"], m["l"], m["r"], m.get("s"), m.get("bias")) for m in c["mods"]], c["pbc"], c["par"])
    if len(mods) > 1:
        obs.nontrivial(c["seed"])


def ends(c, obs):
    from torchmps import contractables as K
    from torchmps import torchmps as M

    D, o = c["D"], c["o"]
    torch.manual_seed(c["seed"])
    K.Contractable.global_bs = None
    mat = K.MatRegion(torch.randn(3, 2, D, D))
    v = M.InitialVector(D, fill_dim=c["fill"], fixed_vec=c["fixed"], is_left_vec=c["left"])
    vec = np.ones(D)
    if c["fill"] is not None:
        vec[c["fill"]:] = 0
    need(len(v) == 0 and v.core_len() == 1, "sizes of the initial vector")
    need((refs.wide(v.vec) == vec).all(), "initial vector", got=v.vec)
    need((len(list(v.parameters())) == 0) == c["fixed"] and (len(list(v.buffers())) == 1) == c["fixed"],
         "initial vector is a parameter exactly if not fixed")
    e = v()
    need(e.bond_str == ("br" if c["left"] else "bl"), "index of the initial vector", got=e.bond_str)
    need(tuple(e.tensor.shape) == (3, D) and (refs.wide(e.tensor) == vec).all(), "initial vector as an edge vector")
    prod = (e * mat) if c["left"] else (mat * e)
    full = np.einsum("bij,bjk->bik", *refs.wide(mat.tensor).swapaxes(0, 1))
    want = np.einsum("l,blr->br", vec, full) if c["left"] else np.einsum("blr,r->bl", full, vec)
    refs.close(refs.wide(prod.tensor), want, 1e-5 * (1 + np.abs(full).sum((1, 2)).max()), "initial vector times matrices")
    if c["fixed"] and o > D:
        try:
            M.TerminalOutput(D, o, fixed_mat=True, is_left_mat=c["left"])
        except ValueError:
            obs.hit("refused")
        else:
            fail("fixed terminal matrix with more outputs than bonds accepted", D=D, o=o)
    else:
        T = M.TerminalOutput(D, o, fixed_mat=c["fixed"], is_left_mat=c["left"])
        need(len(T) == 0 and T.core_len() == 1, "sizes of the terminal matrix")
        need((len(list(T.parameters())) == 0) == c["fixed"], "terminal matrix is a parameter exactly if not fixed")
        need(tuple(T.mat.shape) == (D, o), "shape of the terminal matrix")
        if c["fixed"]:
            need((refs.wide(T.mat) == np.eye(D, o)).all(), "fixed terminal matrix")
        else:
            need((np.abs(refs.wide(T.mat) - np.eye(D, o)) <= 7.0 / D).all(), "terminal matrix is not near the identity")
        p = (mat.reduce() * T()) if not c["left"] else (T() * mat.reduce())
        tm = refs.wide(T.mat)
        want = np.einsum("blr,ro->blo", full, tm) if not c["left"] else np.einsum("lo,blr->bro", tm, full)
        need(sorted(p.bond_str) == sorted("blo" if not c["left"] else "bro"), "indices of matrices times terminal matrix", got=p.bond_str)
        want = np.transpose(want, [("blo" if not c["left"] else "bro").index(q) for q in p.bond_str])
        refs.close(refs.wide(p.tensor), want, 1e-5 * (1 + np.abs(full).sum((1, 2)).max()) * (1 + np.abs(tm).max()),
                   "matrices times terminal matrix")
    for bad in (-1, D + 1):
        try:
            M.InitialVector(D, fill_dim=bad)
        except (AssertionError, ValueError):
            obs.hit("refused")
        else:
            fail("fill dimension outside the vector accepted", D=D, fill=bad)
    site = M.InputSite(torch.randn(D, D, 2))
    for bad in ([], (site,), site, torch.nn.ModuleList([site]), None, [site, None], [torch.randn(D, D, 2)], [[site]], {0: site}):
        for pbc in (False, True):
            try:
                M.LinearRegion(bad, periodic_bc=pbc)
            except ValueError:
                obs.hit("refused_lists")
            else:
                fail("LinearRegion of something else than a nonempty list of modules accepted", got=type(bad).__name__)
    obs.hit("ends")
    obs.state("ends", D, o, c["fill"], c["fixed"], c["left"])
    obs.nontrivial(c["seed"])


def run(c, obs):
    ends(c, obs) if c["kind"] == "ends" else chain(c, obs)
