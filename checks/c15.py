"""C15: gradients of every model and contraction are the true derivatives."""
import numpy as np
import torch

from rtm import gen as G
from rtm import refs, tref
from rtm.core import Skip, fail, need

CASES = {"quick": 3500, "thorough": 40000}
RULE = ("gradients from backward() for every parameter, the float inputs and registered maps of: probabilistic models (all "
        "options; loss and log norm; long, scaled, sparse, embedded, after training), MPS (all configurations, after "
        "merge-state changes, path, feature map modules), TI_MPS (tensors and lists with padding), contract_matseq "
        "(broadcast, complex, zeros, log format) and get_log_norm (with the gradient of the normalization matrix), each "
        "compared elementwise with the derivative of the plain double-precision function, with rounding bounds from "
        "the same function of absolute values; accumulation over two backward calls checked; non-trivial if a gradient "
        "was decided to better than 5%")
MIN = {"accumulated": 111, "decided": 6598, "embedded_inputs": 23, "ill_conditioned": 99, "inputs": 1620,
       "lognorm": 1615, "map_parameters": 640, "matseq": 1300, "net": 2008, "prob": 1084, "ti": 601,
       "zero_products": 398}
DT = {"f32": torch.float32, "f64": torch.float64, "c64": torch.complex64, "c128": torch.complex128}


def gen(rng, tier, idx):
    what = ["prob", "prob", "net", "ti", "matseq", "lognorm"][idx % 6]
    c = {"what": what, "seed": G.rs(rng)}
    if what == "prob":
        s = G.prob_spec(rng, dtypes=("f64", "f64", "f32"), nmax=8)
        if rng.random() < 0.2:
            s.update(n=G.ri(rng, 10, 60), emb=None, dist=G.pick(rng, ["normal", "eye", "scaled"]))
        s["inp"] = G.pick(rng, ["sym", "vec", "prob", "cvec", "onehotvec"])
        if rng.random() < 0.06:
            c["large"] = G.enlarge(s, rng, axes=("batch", "D", "n", "d"), budget=2e5, nmax=129)
        c.update(spec=s, batch=c.pop("large", 0) or G.pick(rng, [1, 2, 5]), train=G.pick(rng, [0, 0, 2]))
    elif what == "net":
        s = G.mps_spec(rng, nmax=8, dtypes=("f64", "f64", "f32"))
        s["thresh"] = G.pick(rng, [3, 5, 10000])
        if rng.random() < 0.06:
            c["large"] = G.enlarge(s, rng, axes=("batch", "D", "o", "n", "d"), budget=1e5, nmax=65)
        c.update(spec=s, batch=c.pop("large", 0) or G.pick(rng, [1, 2, 4]), calls=G.ri(rng, 1, 4), map=bool(rng.random() < 0.35))
    elif what == "ti":
        s = G.ti_spec(rng, dtypes=("f64", "f64", "f32"))
        c.update(spec=s, batch=G.pick(rng, [1, 2, 4]), list=bool(rng.random() < 0.5), map=bool(rng.random() < 0.3),
                 emb=bool(rng.random() < 0.5))
    elif what == "matseq":
        c.update(n=G.pick(rng, [0, 1, 2, 3, 4, 5, 7, 12]), D=G.pick(rng, [1, 2, 3, 4]), dt=G.pick(rng, list(DT)),
                 vecs=[bool(rng.random() < 0.6), bool(rng.random() < 0.6)], zero=G.pick(rng, [None, None, None, "mat", "vec", "orth"]),
                 stack=bool(rng.random() < 0.5), scale=G.pick(rng, [0, 0, 2, -2]))
        if rng.random() < 0.1:
            c.update(G.pick(rng, [{"n": 33}, {"n": 65}, {"n": 130}, {"D": 17}, {"D": 33}, {"D": 65}]))
            if c["n"] > 12:
                c.update(scale=-0.5 * float(np.log10(c["D"])), dt=G.pick(rng, ["f64", "c128"]))
    else:
        c.update(n=G.ri(rng, 0, 8), D=G.pick(rng, [1, 2, 3, 4]), d=G.pick(rng, [1, 2, 3]), dt=G.pick(rng, list(DT)),
                 uni=bool(rng.random() < 0.5), lamb=G.pick(rng, [None, 0, 1, 2, 2]), scale=G.pick(rng, [0, 0, 3, -3]))
        if not c["uni"]:
            c["n"] = max(1, c["n"])
        if rng.random() < 0.1:
            c.update(G.pick(rng, [{"n": 40}, {"n": 100}, {"n": 130}, {"D": 17}, {"D": 33}, {"d": 17}, {"d": 65}, {"d": 130}]))
    return c


def cmp(obs, got, want, tol, what):
    """gradient tensor or None against reference arrays"""
    want = np.asarray(want)
    g = np.zeros(want.shape) if got is None else refs.wide(got)
    need(g.size == want.size, f"{what}: wrong shape", got=g.shape, want=want.shape)
    g = g.reshape(want.shape)
    tol = np.broadcast_to(np.asarray(tol, float), want.shape)
    refs.close(g, want, tol, what)
    if want.size and (tol < 0.05 * np.abs(want).max()).any():
        obs.hit("decided")
        return 1
    return 0


def run(c, obs):
    rng = np.random.default_rng(c["seed"])
    dec = globals()["do_" + c["what"]](c, rng, obs)
    if dec:
        obs.nontrivial(c["what"], c["seed"])


def do_prob(c, rng, obs):
    s = c["spec"]
    model, emb = G.build_prob(s)
    if c["train"]:
        opt = torch.optim.SGD(model.parameters(), lr=0.05)
        tt, _ = G.prob_input(s, rng, 3, emb)

        def lf():
            return model.loss(tt)

        try:
            G.train_steps(model, opt, lf, c["train"])
        except AssertionError:
            pass
    ref = G.ProbRef(model, s, emb)
    if not ref.usable:
        raise Skip("norm not determined")
    t, w = G.prob_input(s, rng, c["batch"], emb)
    _, wantp, wantm, wantx, cond = tref.prob_grads(model, s, t, w, emb)
    if not cond < (1e3 if s["dtype"] == "f32" else 1e9) or not all(np.isfinite(g).all() for g, _ in wantp.values()):
        obs.hit("ill_conditioned")
        raise Skip("ill-conditioned")
    slim = bool(rng.random() < 0.4) and not s["bias"]
    par = bool(rng.random() < 0.4)
    times = 1 + int(rng.random() < 0.25)
    x = t.clone()
    floaty = x.is_floating_point() or x.is_complex()
    xin = emb is None or (emb.cont and (emb.kind in ("poly", "fourier", "trig") or emb.trainable))
    if floaty and xin and x.numel():
        x.requires_grad_(True)
    model.zero_grad(set_to_none=True)
    for _ in range(times):
        if rng.random() < 0.5:
            model.loss(x, slim_eval=slim, parallel_eval=par).backward()
        else:
            (-model(x, slim_eval=slim, parallel_eval=par).mean()).backward()
    if times > 1:
        obs.hit("accumulated")
    dec = 0
    for k, p in model.named_parameters():
        if "." in k:
            continue
        g, tg = wantp[k]
        need(p.grad is None or bool(torch.isfinite(torch.view_as_real(p.grad) if p.is_complex() else p.grad).all()),
             f"gradient of {k} is not finite")
        dec += cmp(obs, p.grad, times * g, times * tg, f"gradient of {k} (slim={slim}, parallel={par})")
        obs.hit("prob")
    if emb is not None and emb.trainable:
        for p, (g, tg) in zip(emb.module.parameters(), wantm):
            dec += cmp(obs, p.grad, times * g, times * tg, "gradient of the embedding")
            obs.hit("prob")
            obs.hit("map_parameters")
    if x.requires_grad and wantx is not None:
        g, tg = wantx
        if emb is not None and not emb.trainable:
            # chain rule through the fixed embedding
            y = torch.tensor(refs.wide(t))
            h = 1e-5
            dv = (emb.ref(refs.wide(t) + h) - emb.ref(refs.wide(t) - h)) / (2 * h)
            dv2 = (emb.ref(refs.wide(t) + 2 * h) - emb.ref(refs.wide(t) - 2 * h)) / (4 * h)
            dv = (4 * dv - dv2) / 3
            tg = ((tg + 60 * G.eps_s(s) * np.abs(g).max()) * np.abs(dv)).sum(-1) + (1e-9 + 60 * G.eps_s(s)) * (
                np.abs(g).sum(-1) * (1 + np.abs(dv).max(initial=0)))
            g = (np.conj(g) * dv).sum(-1).real
            obs.hit("embedded_inputs")
        if not x.is_complex() and np.iscomplexobj(g):
            g = g.real
        dec += cmp(obs, x.grad, times * g, times * tg, f"gradient of the input (slim={slim}, parallel={par})")
        obs.hit("inputs")
    # the log norm by itself
    model.zero_grad(set_to_none=True)
    ln = model.log_norm() if s["kind"] == "fixed" else model.log_norm(s["n"])
    if ln.requires_grad:
        ln.backward()
        cores, L, R, _ = G.prob_parts(model, s)
        own = {k: tref.leaf(p) for k, p in model.named_parameters() if "." not in k}
        cc = own["core_tensors"] + (own["bias_mat"] if s["bias"] else 0)
        if s["kind"] == "unif":
            cc = cc.expand((s["n"],) + cc.shape)
        lam = torch.eye(s["d"], dtype=torch.float64) if emb is None else torch.tensor(ref.lamb)
        e = own["edge_vecs"]
        cdt = torch.complex128 if cc.is_complex() or lam.is_complex() else torch.float64
        Z = tref.norm2(cc.to(cdt), e[0].to(cdt), e[1].to(cdt), lam.to(cdt))
        gs = tref.g0(torch.log(Z), list(own.values()))
        for (k, _), g in zip(own.items(), gs):
            p = dict(model.named_parameters())[k]
            top = max(float(g.abs().max()), float((1 / (p.detach().abs().max() + 1e-30))))
            cmp(obs, p.grad, g.numpy(), np.full(tuple(g.shape), 200 * G.eps_s(s) * (s["n"] + 2) * (1 + cond) ** 1 * top * 30),
                f"gradient of the log norm with respect to {k}")
            obs.hit("lognorm")
    obs.state("prob", s["kind"], s["n"], s["d"], s["D"], s["cplx"], s["bias"], s.get("inp"), slim, par, s["emb"] and s["emb"]["kind"])
    return dec


class Map(torch.nn.Module):
    """x -> (a x + b) componentwise tanh"""

    def __init__(self, a, b):
        super().__init__()
        self.a, self.b = torch.nn.Parameter(a), torch.nn.Parameter(b)

    def forward(self, x):
        return torch.tanh(self.a * x + self.b)


def make_map(s, rng):
    f = lambda: torch.tensor(rng.normal(size=s["d"])).to(G.F[s["dtype"]])
    return Map(f(), f())


def map_grads(m, x, gw, tw):
    """chain rule through Map: x (...,), gw (..., d) -> grads and tolerances of a, b, x"""
    a, b = refs.wide(m.a), refs.wide(m.b)
    y = np.tanh(a * x[..., None] + b)
    dy = 1 - y**2
    ax = tuple(range(gw.ndim - 1))
    tw = tw + 1e-30
    return {
        "a": ((gw * dy * x[..., None]).sum(ax), (tw * dy * np.abs(x[..., None])).sum(ax)),
        "b": ((gw * dy).sum(ax), (tw * dy).sum(ax)),
        "x": ((gw * dy * a).sum(-1), (tw * dy * np.abs(a)).sum(-1)),
    }


def slack(g, t, eps):
    """derivative of the map evaluated in eps arithmetic"""
    return t + 60 * eps * (np.abs(g).max(initial=0) + t.max(initial=0))


def do_net(c, rng, obs):
    s = c["spec"]
    model = G.build_mps(s)
    fmap = None
    if c["map"]:
        fmap = make_map(s, rng)
        model.register_feature_map(fmap)
    eps = G.eps_s(s)
    dec = 0
    for call in range(c["calls"]):
        width = s.get("width", s["n"])
        raw = bool(rng.random() < 0.5) and (s["d"] == 2 or fmap is not None)
        if raw:
            x = torch.tensor(rng.uniform(-1, 1, size=(c["batch"], width))).to(G.F[s["dtype"]])
        else:
            x = torch.tensor(rng.normal(size=(c["batch"], width, s["d"]))).to(G.F[s["dtype"]])
        xs = refs.wide(x)
        path = s["path"] if s.get("path") is not None else list(range(s["n"]))
        sel = xs[:, path]
        if not raw:
            w = sel
        elif fmap is not None:
            w = np.tanh(refs.wide(fmap.a) * sel[..., None] + refs.wide(fmap.b))
        else:
            w = np.stack([sel, 1 - sel], -1)
        x.requires_grad_(True)
        model.zero_grad(set_to_none=True)
        try:
            out = model(x)
        except RuntimeError as e:
            if s["adaptive"] and "cutoff" in str(e):
                return dec
            raise
        need(tuple(out.shape) == (c["batch"], s["o"]), "wrong output shape", got=tuple(out.shape))
        W = rng.normal(size=tuple(out.shape))
        (out * torch.tensor(W).to(out.dtype)).sum().backward()
        want, (gw, tw), _ = tref.net_grads(model, s, w, W)
        if raw and fmap is not None:
            gw_t = {k: slack(gw, tw, eps) for k in "w"}["w"]
        else:
            gw_t = tw
        for k, p in model.named_parameters():
            if id(p) in want:
                g, tg = want[id(p)]
                if raw and fmap is not None:
                    tg = slack(g, tg, eps)
                dec += cmp(obs, p.grad, g, tg, f"gradient of {k}")
                obs.hit("net")
            elif k.startswith("feature_map"):
                if raw:
                    g, tg = map_grads(fmap, sel, gw, gw_t)[k[-1]]
                    dec += cmp(obs, p.grad, g, slack(g, tg, eps), "gradient of the feature map")
                else:
                    need(p.grad is None or not p.grad.any(), "gradient of a feature map that was not used")
                obs.hit("map_parameters")
            else:
                need(p.grad is None or not p.grad.any(), "gradient on a core not in use", name=k)
        if not raw:
            gx, tx = gw, gw_t
        elif fmap is not None:
            gx, tx = map_grads(fmap, sel, gw, gw_t)["x"]
            tx = slack(gx, tx, eps)
        else:
            gx, tx = gw[..., 0] - gw[..., 1], gw_t.sum(-1) + 8 * eps * np.abs(gw).sum(-1)
        full, ftol = np.zeros(xs.shape), np.full(xs.shape, 1e-30)
        for i, site in enumerate(path):  # a datum visited twice collects both derivatives
            full[:, site] += gx[:, i]
            ftol[:, site] += tx[:, i] + 4 * eps * np.abs(gx[:, i])
        dec += cmp(obs, x.grad, full, ftol, "gradient of the input")
        obs.hit("inputs")
        if s["adaptive"]:
            obs.state("offset", model.linear_region.offset)
    obs.state("net", *[str(s.get(k)) for k in ("n", "o", "D", "d", "pbc", "label", "bias", "adaptive", "par", "path")])
    return dec


def do_ti(c, rng, obs):
    s = c["spec"]
    model = G.build_ti(s)
    eps = G.eps_s(s)
    fmap = None
    if c["map"]:
        fmap = make_map(s, rng)
        model.register_feature_map(fmap)
    raw = not c["emb"] and (s["d"] == 2 or fmap is not None)
    can_pad = s["bias"] and s["fixed_bias"]
    n = G.ri(rng, 0, 6)
    lens = [n] * c["batch"]
    if c["list"] and can_pad:
        lens = [G.ri(rng, 0, 6) for _ in lens]
    if raw and fmap is not None:
        lens = [max(1, k) for k in lens]
    xs = [torch.tensor(rng.uniform(-1, 1, size=(k,) if raw else (k, s["d"]))).to(G.F[s["dtype"]]).requires_grad_(True) for k in lens]
    arg = list(xs) if c["list"] else torch.stack(xs)
    out = model(arg)
    need(tuple(out.shape) == (c["batch"], s["o"]), "wrong output shape", got=tuple(out.shape))
    W = rng.normal(size=tuple(out.shape))
    if out.requires_grad:  # else all derivatives must vanish (empty sequences between fixed ends)
        (out * torch.tensor(W).to(out.dtype)).sum().backward()
    tot, dec = {}, 0
    fm = {}
    for b, x in enumerate(xs):
        v = refs.wide(x)
        if not raw:
            w = v
        elif fmap is not None:
            w = np.tanh(refs.wide(fmap.a) * v[..., None] + refs.wide(fmap.b))
        else:
            w = np.stack([v, 1 - v], -1)
        want, (gw, tw), _ = tref.ti_grads(model, s, w[None], W[b : b + 1])
        gw, tw = gw[0], tw[0]
        if raw and fmap is not None:
            tw = slack(gw, tw, eps)
            mg = map_grads(fmap, v, gw, tw)
            for k in "ab":
                a0, b0 = fm.get(k, (0, 0))
                fm[k] = (a0 + mg[k][0], b0 + slack(*mg[k], eps))
            gx, tx = mg["x"][0], slack(*mg["x"], eps)
        elif raw:
            gx, tx = gw[..., 0] - gw[..., 1], tw.sum(-1) + 8 * eps * np.abs(gw).sum(-1)
        else:
            gx, tx = gw, tw
        # padded neighbours add rounding of longer chains
        dec += cmp(obs, x.grad, gx, tx * (3 if c["list"] else 1), "gradient of the input sequence")
        obs.hit("inputs")
        for k, (g, tg) in want.items():
            if raw and fmap is not None:
                tg = slack(g, tg, eps)
            a0, b0 = tot.get(k, (0, 0))
            tot[k] = (a0 + g, b0 + tg * 3 + 4 * eps * np.abs(g))
    for k, p in model.named_parameters():
        if k.startswith("feature_map"):
            if raw:
                dec += cmp(obs, p.grad, fm[k[-1]][0], fm[k[-1]][1], "gradient of the feature map")
                obs.hit("map_parameters")
            continue
        dec += cmp(obs, p.grad, tot[k][0], tot[k][1], f"gradient of {k}")
        obs.hit("ti")
    obs.state("ti", *[str(s.get(k)) for k in ("o", "D", "d", "par", "fixed_ends", "bias", "fixed_bias")], c["list"], raw, str(lens))
    return dec


def naive(ms, L, R, D):
    p = None
    if L is not None:
        p = L[..., None, :]
    for m in ms:
        p = m if p is None else p @ m
    if R is not None:
        p = R[..., None] if p is None else p @ R[..., None]
    if p is None:
        p = torch.eye(D, dtype=torch.float64)
    return p


def do_matseq(c, rng, obs):
    from torchmps.mps_base import contract_matseq

    dt, n, D = DT[c["dt"]], c["n"], c["D"]
    eps = refs.eps_of(dt)
    full = [int(x) for x in rng.integers(1, 3, size=G.pick(rng, [0, 1, 2]))]

    def sub():
        return [1 if rng.random() < 0.3 else x for x in full]

    def t(shape, sc=0):
        v = rng.normal(size=shape)
        if dt.is_complex:
            v = v + 1j * rng.normal(size=shape)
        return torch.tensor(v * 10.0**sc).to(dt)

    dims = [D] * (n + 1) if c["stack"] or n == 0 else [int(x) for x in rng.integers(1, 5, size=n + 1)]
    if c["stack"]:
        st = t(tuple(full) + (n, D, D), c["scale"])
        ms = [st[..., i, :, :] for i in range(n)]
    else:
        ms = [t(tuple(sub()) + (dims[i], dims[i + 1]), c["scale"]) for i in range(n)]
    L = t(tuple(sub()) + (dims[0],)) if c["vecs"][0] else None
    R = t(tuple(sub()) + (dims[-1],)) if c["vecs"][1] else None
    if not c["stack"] and n == 0 and L is None and R is None:
        return 0
    if c["zero"] == "mat" and n:
        ms[int(rng.integers(n))].zero_()
    elif c["zero"] == "vec" and L is not None:
        L.zero_()
    elif c["zero"] == "orth" and n > 1:
        i = int(rng.integers(1, n))
        h = ms[i].shape[-2] // 2
        ms[i][..., :h, :] = 0
        ms[i - 1][..., :, h:] = 0
    lib = [st.requires_grad_(True)] if c["stack"] else [m.requires_grad_(True) for m in ms]
    vec = [v.requires_grad_(True) for v in (L, R) if v is not None]
    par, lf = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    got = contract_matseq(st if c["stack"] else ms, L, R, par, lf)
    if lf:
        con, ls = got
        got = con * torch.exp(ls)
    val = refs.wide(got)
    W = rng.normal(size=val.shape) + (1j * rng.normal(size=val.shape) if dt.is_complex else 0)
    if not got.requires_grad:
        need(not lib[0].numel() if lib else True, "the product is detached from its factors")
        return 0
    (got * torch.tensor(np.conj(W)).to(dt)).real.sum().backward()
    leaves = [tref.leaf(x) for x in lib + vec]
    absl = [tref.leafabs(x) for x in lib + vec]

    def ev(ls_):
        k = len(lib)
        m = [ls_[0][..., i, :, :] for i in range(n)] if c["stack"] else ls_[:k]
        rest = list(ls_[k:])
        l = rest.pop(0) if L is not None else None
        r = rest.pop(0) if R is not None else None
        p = naive(m, l, r, D)
        if L is not None:
            p = p[..., 0, :]
        if R is not None:
            p = p[..., 0]
        return p

    o = ev(leaves)
    need(tuple(torch.broadcast_shapes(o.shape, val.shape)) == val.shape, "shape of the product", got=val.shape, want=tuple(o.shape))
    wt = torch.tensor(np.conj(W))
    gs = tref.g0((o * wt).real.sum() if o.numel() else o.real.sum(), leaves)
    tols = tref.g0((ev(absl) * wt.abs()).sum(), absl)
    gam = 40 * eps * (n + 3) * (2 * max(dims) + 8)
    dec = 0
    for x, g, tt in zip(lib + vec, gs, tols):
        tol = gam * (tt.numpy() + (tt.max().item() if tt.numel() else 0)) + (1e-36 if eps > 1e-10 else 1e-290)
        need(x.grad is None or bool(torch.isfinite(torch.view_as_real(x.grad) if dt.is_complex else x.grad).all()),
             "gradient of a product is not finite", zero=c["zero"], log=lf, par=par)
        if lf and not np.abs(val).max(initial=0):
            # nothing but the zero product is represented; its derivative in log format is checked when nonzero
            obs.hit("zero_products")
        dec += cmp(obs, x.grad, g.numpy(), tol, f"gradient of the product (parallel={par}, log={lf}, zero={c['zero']})")
        obs.hit("matseq")
    obs.state("matseq", n, str(dims), c["dt"], par, lf, str(full), c["zero"])
    return dec


def do_lognorm(c, rng, obs):
    from torchmps.mps_base import get_log_norm

    dt, n, D, d = DT[c["dt"]], c["n"], c["D"], c["d"]
    eps = refs.eps_of(dt)

    def t(*shape, sc=0.0):
        v = rng.normal(size=shape)
        if dt.is_complex:
            v = v + 1j * rng.normal(size=shape)
        return torch.tensor(v * 10.0**sc).to(dt)

    core = t(d, D, D, sc=c["scale"]) if c["uni"] else t(n, d, D, D, sc=c["scale"])
    bv = t(2, D)
    lam = None
    if c["lamb"] == 0:
        lam = torch.tensor(float(rng.uniform(0.5, 2))).to(dt if rng.random() < 0.5 else dt.to_real())
    elif c["lamb"] == 1:
        lam = torch.tensor(rng.uniform(0.2, 2, size=d)).to(dt if rng.random() < 0.5 else dt.to_real())
    elif c["lamb"] == 2:
        a = t(d, d + 1)
        lam = a @ a.conj().T
    leaves = [x.requires_grad_(True) for x in (core, bv) + ((lam,) if lam is not None else ())]
    out = get_log_norm(core, bv, length=n if c["uni"] or rng.random() < 0.5 else None, lamb_mat=lam)
    need(out.ndim == 0 and not out.is_complex(), "log norm is not a real scalar", got=(tuple(out.shape), str(out.dtype)))
    if not torch.isfinite(out):
        raise Skip("zero norm")
    out.backward()

    def ev(l, absolute=False):
        cc, e = l[0], l[1]
        cc = cc.expand((n,) + cc.shape) if c["uni"] else cc
        m = torch.eye(d, dtype=torch.float64) if len(l) < 3 else l[2]
        if m.ndim == 0:
            m = m * torch.eye(d, dtype=torch.float64)
        elif m.ndim == 1:
            m = torch.diag(m)
        cdt = torch.complex128 if any(x.is_complex() for x in l) else torch.float64
        return tref.norm2(cc.to(cdt), e[0].to(cdt), e[1].to(cdt), m.to(cdt))

    ref = [tref.leaf(x) for x in leaves]
    Z = ev(ref)
    gs = tref.g0(torch.log(Z), ref)
    al = [tref.leafabs(x) for x in leaves]
    za = ev(al)
    ts = tref.g0(za, al)
    k = float((za / Z).detach())
    if not k < (1e3 if eps > 1e-10 else 1e8):
        raise Skip("ill-conditioned")
    gam = 30 * eps * (n + 2) * (2 * D + 2 * d + 8)
    dec = 0
    for x, g, tt in zip(leaves, gs, ts):
        tol = gam * (1 + k) / float(Z.detach()) * (tt.numpy() + (tt.max().item() if tt.numel() else 0)) + 1e-300
        want = g.numpy()
        if x.grad is None:
            need(not np.abs(want).max(initial=0) > tol.max(initial=1e-300), "missing gradient of the log norm")
        dec += cmp(obs, x.grad, want, tol, f"gradient of the log norm (normalization of order {c['lamb']})")
        obs.hit("lognorm")
    obs.state("lognorm", n, D, d, c["dt"], c["uni"], c["lamb"])
    return dec
