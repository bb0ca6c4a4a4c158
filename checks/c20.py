"""C20: double-precision models and functions compute, return and differentiate in double precision."""
import numpy as np
import torch

from checks import c11
from rtm import gen as G
from rtm import refs, tref
from rtm.core import Skip, fail, need

CASES = {"quick": 3200, "thorough": 40000}
RULE = ("models of every class and configuration converted by double() or to() (or built under a double default), called "
        "with every input format under either default type, adaptive ones across merge-state changes; outputs, log norms, "
        "losses and gradients must be of double type and within double-precision rounding bounds of the reference; the "
        "contraction, slicing, norm, initialization and factorization functions must keep the precision of their arguments "
        "(all four types); non-trivial if a value was decided to better than 1e-9")
MIN = {"adaptive_calls": 239, "conv_default": 52, "conv_double": 45, "conv_emb": 106, "conv_to": 53,
       "functions": 784, "gradients": 3532, "input_gradients": 292, "net_values": 4427, "prob_norms": 258,
       "prob_values": 1800, "sharp": 62025, "sharp_changes": 99, "singular_values": 63, "ti_values": 291}
DT = {"f32": torch.float32, "f64": torch.float64, "c64": torch.complex64, "c128": torch.complex128}
EPS = {"f32": 2.0**-23, "c64": 2.0**-23, "f64": 2.0**-52, "c128": 2.0**-52}
CLOSE = 1e-9
KINDS = ["prob", "prob", "net", "net", "ti", "matseq", "slim", "norm", "slices", "svd", "contr"]


def gen(rng, tier, idx):
    what = KINDS[idx % len(KINDS)]
    c = {"what": what, "seed": G.rs(rng), "default64": bool(rng.random() < 0.2)}
    if what == "prob":
        s = G.prob_spec(rng, dtypes=("f64",), nmax=7)
        s["inp"] = G.pick(rng, ["sym", "vec", "prob", "cvec", "onehotvec"])
        if rng.random() < 0.15:
            s.update(n=G.ri(rng, 10, 80))
        large = G.enlarge(s, rng, budget=2e5, nmax=129) if rng.random() < 0.06 else 0
        c.update(spec=s, batch=large or G.pick(rng, [1, 2, 4]), conv=G.pick(rng, ["default", "double", "to"]))
    elif what == "net":
        s = G.mps_spec(rng, nmax=7, dtypes=("f64",))
        if s["adaptive"]:
            s["thresh"] = G.pick(rng, [1, 2, 4])
        large = G.enlarge(s, rng, budget=2e5, nmax=129) if rng.random() < 0.1 and not s["adaptive"] else 0
        c.update(spec=s, batch=large or G.pick(rng, [1, 2, 4]), calls=G.ri(rng, 1, 5), fmap=bool(rng.random() < 0.3))
    elif what == "ti":
        c.update(spec=G.ti_spec(rng, dtypes=("f64",)), batch=G.pick(rng, [1, 2, 4]), form=G.pick(rng, ["tensor", "list", "padded"]),
                 raw=bool(rng.random() < 0.5))
    else:
        c.update(dt=G.pick(rng, list(DT)), n=G.ri(rng, 0, 7), D=G.ri(rng, 1, 5), d=G.ri(rng, 1, 4), B=G.pick(rng, [1, 2, 3]))
        c["flags"] = [bool(rng.random() < 0.5) for _ in range(6)]
        if rng.random() < 0.1:
            c.update(G.pick(rng, [{"n": 33}, {"n": 65}, {"n": 129}, {"D": 17}, {"D": 33}, {"d": 17}, {"d": 65}, {"B": 65},
                                  {"B": 130}, {"B": 600}]))
    return c


def run(c, obs):
    rng = np.random.default_rng(c["seed"])
    if c["default64"] and c["what"] in ("prob", "net", "ti"):
        torch.set_default_dtype(torch.float64)
    best = globals()["do_" + c["what"]](c, rng, obs)
    obs.state(c["what"], c.get("dt"), c.get("conv"), c.get("form"), c.get("n"), c.get("D"), c.get("d"),
              str(c.get("flags")), str({k: v for k, v in c.get("spec", {}).items() if k != "seed"}))
    if best:
        obs.nontrivial(c["what"], c["seed"])


def typed(t, dt, what):
    need(isinstance(t, torch.Tensor), f"{what}: not a tensor")
    need(t.dtype == dt, f"{what}: wrong precision", got=str(t.dtype), want=str(dt))


def close(obs, got, want, tol, what):
    """Compare; returns whether something was decided at double precision."""
    g, want = refs.wide(got), np.asarray(want)
    need(g.shape == want.shape, f"{what}: wrong shape", got=g.shape, want=want.shape)
    tol = np.broadcast_to(np.asarray(tol, float), want.shape)
    refs.close(g, want, tol, what)
    sharp = tol < CLOSE * (np.abs(want) + 1e-200)
    if sharp.any():
        obs.hit("sharp", int(sharp.sum()))
        return True
    return False


def do_prob(c, rng, obs):
    s = c["spec"]
    if c["conv"] == "default" or s["emb"]:
        model, emb = G.build_prob(s)  # built under a double default, as the stored normalization matrix needs
        torch.set_default_dtype(torch.float64 if c["default64"] else torch.float32)
    else:
        s32 = dict(s, dtype="f32")
        if c["conv"] == "double":
            model, emb = G.build_prob(dict(s32, cplx=False, init=s["init"]))
            s = dict(s, cplx=False)
            model = model.double()
        else:
            model, emb = G.build_prob(s32)
            model = model.to(torch.complex128 if s["cplx"] else torch.float64)
        # use the whole mantissa
        with torch.no_grad():
            for p in model.parameters():
                p.mul_(1 + 1e-4 * torch.tensor(rng.normal(size=tuple(p.shape))))
    pdt = torch.complex128 if s["cplx"] else torch.float64
    for k, p in model.named_parameters():
        if "." not in k:
            need(p.dtype == pdt, "parameter not of double type", name=k, dtype=str(p.dtype))
    ref = G.ProbRef(model, s, emb)
    if not ref.usable:
        raise Skip("norm not determined")
    t, w = G.prob_input(s, rng, c["batch"], emb)
    if t.is_complex() and not s["cplx"]:
        raise Skip("complex input of a real model")
    x = t.clone()
    if (x.is_floating_point() or x.is_complex()) and emb is None and x.numel():
        x.requires_grad_(True)
    best = False
    first = None
    for slim, par in [(False, False), (True, False), (False, True)]:
        if slim and s["bias"]:
            continue
        model.zero_grad(set_to_none=True)
        x.grad = None
        out = model(x, slim_eval=slim, parallel_eval=par)
        typed(out, torch.float64, "log probabilities")
        val, tol, ch = ref.logp(t, w)
        ok = ch.rel < 1e-3
        best |= close(obs, out[torch.tensor(ok)], val[ok], tol[ok], "log probabilities")
        obs.hit("prob_values", int(ok.sum()))
        loss = model.loss(x, slim_eval=slim, parallel_eval=par)
        typed(loss, torch.float64, "loss")
        if ok.all():
            close(obs, loss, -val.mean(), tol.max(), "loss")
            loss.backward()
            for k, p in model.named_parameters():
                if p.grad is not None:
                    need(p.grad.dtype == p.dtype, "gradient of another precision", name=k, got=str(p.grad.dtype))
            _, wantp, _, wantx, cond = tref.prob_grads(model, s, t, w, emb)
            if cond < 1e9 and all(np.isfinite(g).all() for g, _ in wantp.values()):
                for k, p in model.named_parameters():
                    if "." in k:
                        continue
                    g, tg = wantp[k]
                    best |= close(obs, torch.zeros_like(p) if p.grad is None else p.grad, g, tg, f"gradient of {k}")
                    obs.hit("gradients")
                if x.requires_grad:
                    need(x.grad is not None and x.grad.dtype == x.dtype, "gradient of the input of another precision")
                    g, tg = wantx
                    g = g if x.is_complex() else g.real
                    best |= close(obs, x.grad, g, tg, "gradient of the input")
                    obs.hit("input_gradients")
    ln = model.log_norm() if s["kind"] == "fixed" else model.log_norm(s["n"])
    typed(ln, torch.float64, "log norm")
    best |= close(obs, ln, np.asarray(ref.logZ), ref.Zrel + 16 * 2.0**-52 * (1 + abs(ref.logZ)), "log norm")
    obs.hit("prob_norms")
    obs.hit("conv_" + ("emb" if s["emb"] else c["conv"]))
    return best


class Cos(torch.nn.Module):
    def __init__(self, d, rng):
        super().__init__()
        self.a = torch.nn.Parameter(torch.tensor(rng.normal(size=d)))

    def forward(self, x):
        return torch.cos(self.a * x)


def do_net(c, rng, obs):
    s = c["spec"]
    # conversion happens to a single-precision model; the distribution then uses the whole mantissa
    model = G.build_mps(s)
    f = None
    if c["fmap"]:
        f = Cos(s["d"], rng)
        model.register_feature_map(f)
    best = False
    for _ in range(c["calls"]):
        width = s.get("width", s["n"])
        raw = bool(rng.random() < 0.6) and (s["d"] == 2 or f is not None)
        v = rng.uniform(-1, 1, size=(c["batch"], width)) if raw else rng.normal(size=(c["batch"], width, s["d"]))
        x = torch.tensor(v).requires_grad_(True)
        w = v
        if raw and f is not None:
            w = np.cos(refs.wide(f.a) * v[..., None])
        elif raw:
            w = np.stack([v, 1 - v], -1)
        if s.get("path") is not None:
            w = w[:, s["path"]]
        model.zero_grad(set_to_none=True)
        before = None
        if s["adaptive"]:
            before = c11.Frozen(model).nodes, model.linear_region.offset
        try:
            out = model(x)
        except RuntimeError as e:
            if s["adaptive"] and "cutoff" in str(e):
                obs.hit("everything_truncated")
                return best
            raise
        typed(out, torch.float64, "output")
        if before is not None and model.linear_region.offset != before[1] and not (raw and f is not None):
            # the change of the merge state itself keeps double precision
            pred, lossless, ok, gap, empty = c11.predict(before[0], s)
            if ok and not empty:
                want, err = G.net_eval(pred, w, s["pbc"], 2.0**-52)
                tol = 2 * err + c11.tolerance(before[0], s, w, gap)
                if close(obs, out, want, tol, "output after a change of the merge state"):
                    obs.hit("sharp_changes")
        want, err = G.mps_ref(model, s, w)
        best |= close(obs, out, want, err + (200 * 2.0**-52 * np.abs(want).max(initial=0) if raw and f is not None else 0), "output")
        obs.hit("net_values", want.size)
        W = rng.normal(size=tuple(out.shape))
        (out * torch.tensor(W)).sum().backward()
        wantg, _, _ = tref.net_grads(model, s, w, W)
        for k, p in model.named_parameters():
            if p.grad is not None:
                need(p.grad.dtype == torch.float64, "gradient of another precision", name=k, got=str(p.grad.dtype))
            if id(p) in wantg and p.grad is not None and not (raw and f is not None):
                g, tg = wantg[id(p)]
                best |= close(obs, p.grad.reshape(g.shape), g, tg, f"gradient of {k}")
                obs.hit("gradients")
        need(x.grad is not None and x.grad.dtype == torch.float64, "gradient of the input of another precision")
        if s["adaptive"]:
            for k, p in model.named_parameters():
                need(p.dtype == torch.float64, "parameter lost its precision", name=k, dtype=str(p.dtype))
            obs.hit("adaptive_calls")
            obs.state("offset", model.linear_region.offset)
            with torch.no_grad():
                for p in model.parameters():
                    p.add_(torch.tensor(1e-3 * rng.normal(size=tuple(p.shape))) * (p.abs().max() if p.numel() else 0))
    return best


def do_ti(c, rng, obs):
    s = c["spec"]
    model = G.build_ti(s)
    raw = c["raw"] and s["d"] == 2
    form = c["form"]
    if form == "padded" and not (s["bias"] and s["fixed_bias"]):
        form = "list"
    n = G.ri(rng, 0 if not raw else 1, 6)
    lens = [G.ri(rng, 1, 6) for _ in range(c["batch"])] if form == "padded" else [n] * c["batch"]
    xs = [rng.uniform(-1, 1, size=(k,) if raw else (k, s["d"])) for k in lens]
    arg = torch.tensor(np.stack(xs)) if form == "tensor" else [torch.tensor(x) for x in xs]
    out = model(arg)
    typed(out, torch.float64, "output")
    need(tuple(out.shape) == (c["batch"], s["o"]), "wrong output shape", got=tuple(out.shape))
    best = False
    W = rng.normal(size=tuple(out.shape))
    tot = {}
    for b, x in enumerate(xs):
        w = np.stack([x, 1 - x], -1) if raw else x
        want, err = G.ti_ref(model, s, w[None])
        best |= close(obs, out[b], want[0], err[0] * 2, "output")
        obs.hit("ti_values")
        gr, _, _ = tref.ti_grads(model, s, w[None], W[b : b + 1])
        for k, (g, tg) in gr.items():
            a, e = tot.get(k, (0, 0))
            tot[k] = (a + g, e + 3 * tg + 8 * 2.0**-52 * np.abs(g))
    if out.requires_grad:
        (out * torch.tensor(W)).sum().backward()
        for k, p in model.named_parameters():
            if p.grad is not None and k in tot:
                need(p.grad.dtype == torch.float64, "gradient of another precision", name=k)
                g, tg = tot[k]
                best |= close(obs, p.grad.reshape(g.shape), g, tg, f"gradient of {k}")
                obs.hit("gradients")
    return best


def tens(rng, shape, dt, scale=1.0):
    v = scale * rng.normal(size=shape)
    if DT[dt].is_complex:
        v = v + 1j * scale * rng.normal(size=shape)
    return torch.tensor(v).to(DT[dt])


def real_of(dt):
    return torch.float32 if EPS[dt] > 1e-10 else torch.float64


def do_matseq(c, rng, obs):
    from torchmps.mps_base import contract_matseq

    dt, D, n, B, fl = c["dt"], c["D"], max(c["n"], 1), c["B"], c["flags"]
    mats = tens(rng, (B, n, D, D), dt, D**-0.5 if n > 12 else 1.0)
    L = tens(rng, (D,), dt) if fl[0] else None
    R = tens(rng, (D,), dt) if fl[1] else None
    arg = mats if fl[2] else [mats[:, i] for i in range(n)]
    out = contract_matseq(arg, L, R, parallel_eval=fl[3], log_format=fl[4])
    if fl[4]:
        out, ls = out
        typed(out, DT[dt], "product")
        need(not ls.any() or ls.dtype == real_of(dt), "log scale of another precision", got=str(ls.dtype))
        out = out * torch.exp(ls.double()).to(out.dtype if EPS[dt] < 1e-10 else DT["c128" if out.is_complex() else "f64"])
    else:
        typed(out, DT[dt], "product")
    m, a = refs.wide(mats), np.abs(refs.wide(mats))
    v, va = m[:, 0], a[:, 0]
    for k in range(1, n):
        v, va = v @ m[:, k], va @ a[:, k]
    if R is not None:
        v, va = v @ refs.wide(R), va @ np.abs(refs.wide(R))
    if L is not None:
        v, va = np.einsum("l,bl...->b...", refs.wide(L), v), np.einsum("l,bl...->b...", np.abs(refs.wide(L)), va)
    obs.hit("functions")
    return close(obs, out, v, 8 * (n + 2) * (2 * D + 8) * EPS[dt] * va + 1e-30, "product") and EPS[dt] < 1e-10


def chain_case(c, rng):
    dt, D, d, n, B, fl = c["dt"], c["D"], c["d"], c["n"], c["B"], c["flags"]
    uni = fl[0] or n == 0
    core = tens(rng, (d, D, D) if uni else (n, d, D, D), dt)
    if fl[1]:
        x = torch.tensor(rng.integers(0, d, size=(B, n)))
        w = np.eye(d)[x.numpy()]
    else:
        x = tens(rng, (B, n, d), "f64" if fl[2] and EPS[dt] < 1e-10 else dt)
        w = refs.wide(x)
    wc = refs.wide(core)
    full = np.broadcast_to(wc, (n,) + wc.shape) if uni else wc
    mats = np.einsum("bti,tide->btde", w, full)
    absm = np.einsum("bti,tide->btde", np.abs(w), np.abs(full))
    return core, x, mats, absm, uni, full


def do_slim(c, rng, obs):
    from torchmps.mps_base import slim_eval_fun

    dt, D = c["dt"], c["D"]
    core, x, mats, absm, uni, full = chain_case(c, rng)
    bv = tens(rng, (2, D), dt)
    out, ls = slim_eval_fun(x, core, bv)
    typed(out, DT[dt], "amplitude")
    if ls.any():
        need(ls.dtype == real_of(dt), "log scale of another precision", got=str(ls.dtype))
    e = refs.wide(bv)
    ch = refs.Chain(mats, e[0], e[1], EPS[dt], absm, inner=c["d"] + 2)
    obs.hit("functions")
    got = refs.wide(out) * np.exp(refs.wide(ls))
    return close(obs, torch.tensor(got), ch.value(), ch.abserr() + 1e-30, "amplitude") and EPS[dt] < 1e-10


def do_slices(c, rng, obs):
    from torchmps.mps_base import get_mat_slices

    core, x, mats, absm, uni, full = chain_case(c, rng)
    out = get_mat_slices(x, core)
    typed(out, DT[c["dt"]], "matrix slices")
    obs.hit("functions")
    return close(obs, out, mats, (4 * c["d"] + 8) * EPS[c["dt"]] * absm + 1e-30, "matrix slices") and EPS[c["dt"]] < 1e-10


def do_norm(c, rng, obs):
    from torchmps.mps_base import get_log_norm

    dt, D, d, n = c["dt"], c["D"], c["d"], c["n"]
    core, x, mats, absm, uni, full = chain_case(c, rng)
    bv = tens(rng, (2, D), dt)
    lam = lamt = None
    k = int(rng.integers(4))
    if k == 1:
        lamt = torch.tensor(rng.uniform(0.5, 2)).to(real_of(dt))
        lam = np.eye(d) * float(lamt)
    elif k == 2:
        lamt = torch.tensor(rng.uniform(0.5, 2, size=d)).to(real_of(dt))
        lam = np.diag(refs.wide(lamt))
    elif k == 3:
        a = rng.normal(size=(d, d))
        if DT[dt].is_complex:
            a = a + 1j * rng.normal(size=(d, d))
        lamt = torch.tensor(a @ a.conj().T + 0.3 * np.eye(d)).to(DT[dt])
        lam = refs.wide(lamt)
    out = get_log_norm(core, bv, length=n if uni else None, lamb_mat=lamt)
    typed(out, real_of(dt), "log norm")
    e = refs.wide(bv)
    want, rel = refs.log_norm(full, e[0], e[1], EPS[dt], lam)
    if not (np.isfinite(want) and rel < 0.1):
        raise Skip("norm not determined")
    obs.hit("functions")
    return close(obs, out, np.asarray(want), rel + 16 * EPS[dt] * (1 + abs(want)), "log norm") and EPS[dt] < 1e-10


def do_svd(c, rng, obs):
    from torchmps.utils import svd_flex

    dt, fl = c["dt"], c["flags"]
    a, b, e = [int(k) for k in rng.integers(1, 5, size=3)]
    t = tens(rng, (a, b, e), dt)
    maxD = None if fl[0] else int(rng.integers(1, 10))
    vec = None
    if fl[1]:
        k = maxD or min(a * b, e)
        vec = torch.zeros(k, dtype=real_of(dt))
    left, right, dim = svd_flex(t, "abc->abx,xc", max_D=maxD, cutoff=1e-10, sv_right=fl[2], sv_vec=vec)
    typed(left, DT[dt], "left factor")
    typed(right, DT[dt], "right factor")
    w = refs.wide(t).reshape(a * b, e)
    u, s, v = np.linalg.svd(w, full_matrices=False)
    k = min(len(s), maxD) if maxD else len(s)
    want = (u[:, :k] * s[:k]) @ v[:k]
    gap = (s[k - 1] - s[k]) / s[0] if k < len(s) else 1.0
    obs.hit("functions")
    tol = 400 * EPS[dt] * s[0] / max(gap, 1e-6)
    best = close(obs, torch.einsum("abx,xc->abc", left, right).reshape(a * b, e), want, tol, "reconstructed tensor")
    if vec is not None:
        sv = np.zeros(len(vec))
        sv[: min(k, len(vec))] = s[: min(k, len(vec))]
        close(obs, vec, sv, 100 * EPS[dt] * s[0], "singular values")
        obs.hit("singular_values")
    return best and EPS[dt] < 1e-10


def do_contr(c, rng, obs):
    from torchmps import contractables as K

    dt, D, n, B, o, fl = c["dt"], c["D"], c["n"], c["B"], c["d"], c["flags"]
    L, R = tens(rng, (B, D), dt), tens(rng, (B, D), dt)
    m1, m2 = tens(rng, (B, n, D, D), dt, (2 * D) ** -0.5 if n > 12 else 1.0), tens(rng, (B, D, D), dt)
    core = tens(rng, (B, o, D, D), dt)
    sc = tens(rng, (B,), dt)
    lst = K.ContractableList([K.EdgeVec(L, True), K.MatRegion(m1), K.SingleMat(m2), K.OutputCore(core), K.MatRegion(m1), K.EdgeVec(R, False)])
    out = lst.reduce(parallel_eval=fl[0])
    if fl[1]:
        out = K.Scalar(sc) * out
    typed(out.tensor, DT[dt], "contracted tensor")
    f = [refs.wide(t) for t in (L, m1, m2, core, R, sc)]

    def val(L, m1, m2, core, R, sc):
        v = L
        for k in range(n):
            v = np.einsum("bl,blr->br", v, m1[:, k])
        v = np.einsum("bl,blr->br", v, m2)
        v = np.einsum("bl,bolr->bor", v, core)
        for k in range(n):
            v = np.einsum("bol,blr->bor", v, m1[:, k])
        v = np.einsum("bor,br->bo", v, R)
        return v * sc[:, None] if fl[1] else v

    obs.hit("functions")
    want, bound = val(*f), val(*[np.abs(x) for x in f])
    best = close(obs, out.tensor, want, 4 * (2 * n + 5) * (2 * D + 8) * EPS[dt] * bound + 1e-30, "contracted tensor")
    # the product of no matrices keeps the precision, too
    r = K.MatRegion(m1).reduce().tensor
    typed(r, DT[dt], "reduced region")
    return best and EPS[dt] < 1e-10
