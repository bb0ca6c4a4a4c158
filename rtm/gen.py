"""Specs (JSON-able), model builders, inputs, and the reference view of each model."""
import copy
import functools
import math

import numpy as np
import torch

from rtm import refs
from rtm.core import Skip, fail, need

F = {"f32": torch.float32, "f64": torch.float64}
NPF = {"f32": np.float32, "f64": np.float64}


def pick(rng, seq, p=None):
    return seq[int(rng.choice(len(seq), p=p))]


def ri(rng, lo, hi):
    return int(rng.integers(lo, hi + 1))


def rs(rng):
    return int(rng.integers(1, 2**31 - 1))


# ------------------------------------------------------------------ embeddings


# embedding functions, at module level so that models using them can be pickled
def _onehot(d, x):
    from torchmps import embeddings as E

    return E.onehot_embed(x, d)


def _lookup(table, x):
    return table[x]


def _powers(d, scale, x):
    return scale * torch.stack([x**j for j in range(d)], dim=-1)


def _waves(d, scale, x):
    return scale * torch.exp(2j * math.pi * x[..., None] * torch.arange(d, dtype=x.dtype))


class TabModule(torch.nn.Module):
    """Trainable table for a discrete domain, in the format init_mlp_embed modules use."""

    def __init__(self, table):
        super().__init__()
        self.table = torch.nn.Parameter(table)

    def forward(self, x):
        return self.table[x[..., 0].long()]


class PolyModule(torch.nn.Module):
    """Trainable x -> sum of powers, for a continuous domain."""

    def __init__(self, coef):
        super().__init__()
        self.coef = torch.nn.Parameter(coef)

    def forward(self, x):
        k = self.coef.shape[0]
        pows = torch.cat([x**j for j in range(k)], dim=-1)
        return pows.to(self.coef.dtype) @ self.coef


def mlp_module(d, hidden, dtype):
    return torch.nn.Sequential(
        torch.nn.Linear(1, hidden), torch.nn.Tanh(), torch.nn.Linear(hidden, d), torch.nn.Sigmoid()
    ).to(dtype)


class Emb:
    """An embedding: the library object and the reference function on float64 arrays."""

    def __init__(self, spec, d, fdt=torch.float32, domain=None):
        from torchmps import embeddings as E

        self.spec, self.d = spec, d
        kind = self.kind = spec["kind"]
        rng = np.random.default_rng(spec["seed"])
        self.cont = spec["cont"]
        self.module = None
        cdt = torch.complex64 if fdt == torch.float32 else torch.complex128
        if self.cont:
            a, b = spec["lo"], spec["hi"]
            self.lo, self.hi = a, b
            self.domain = E.DataDomain(continuous=True, max_val=b, min_val=a)
        else:
            self.size = spec["size"]
            self.domain = E.DataDomain(continuous=False, max_val=self.size)
        if domain is not None:  # an equal domain used by another embedding
            self.domain = domain
        scale = spec.get("scale", 1.0)
        if kind == "onehot":
            self.fun = functools.partial(_onehot, d)
            self.ref = lambda x: np.eye(d)[np.asarray(x).astype(int)]
        elif kind == "table":
            t = rng.normal(size=(self.size, d))
            if spec.get("cplx"):
                t = t + 1j * rng.normal(size=(self.size, d))
            tt = torch.tensor(scale * t).to(cdt if spec.get("cplx") else fdt)
            self.fun = functools.partial(_lookup, tt)
            w = refs.wide(tt)
            self.ref = lambda x: w[np.asarray(x).astype(int)]
        elif kind == "trig":
            if d == 2 and spec.get("sincos"):
                self.fun = E.sincos_embed
            else:
                self.fun = functools.partial(E.trig_embed, emb_dim=d)

            def ref(x):
                x = np.asarray(x, float)[..., None]
                j = np.arange(d)
                c = np.sqrt([math.comb(d - 1, k) for k in range(d)])
                return c * np.cos(np.pi * x / 2) ** (d - 1 - j) * np.sin(np.pi * x / 2) ** j

            self.ref = ref
        elif kind == "poly":
            self.fun = functools.partial(_powers, d, scale)
            self.ref = lambda x: scale * np.stack([np.asarray(x, float) ** j for j in range(d)], -1)
        elif kind == "fourier":
            self.fun = functools.partial(_waves, d, scale)
            self.ref = lambda x: scale * np.exp(2j * np.pi * np.asarray(x, float)[..., None] * np.arange(d))
        elif kind == "mlp":
            torch.manual_seed(spec["seed"])
            if spec.get("builtin"):
                self.obj = E.init_mlp_embed(d, num_layers=2, hidden_dims=[spec["hidden"]], data_domain=self.domain)
                self.module = next(m for m in self.obj.modules() if isinstance(m, torch.nn.Sequential))
            else:
                self.module = mlp_module(d, spec["hidden"], fdt)
        elif kind == "tabmod":
            self.module = TabModule(torch.tensor(scale * rng.normal(size=(self.size, d))).to(fdt))
        elif kind == "polymod":
            c = rng.normal(size=(spec["hidden"], d))
            if spec.get("cplx"):
                c = c + 1j * rng.normal(size=c.shape)
                self.module = PolyModule(torch.tensor(c).to(cdt))
            else:
                self.module = PolyModule(torch.tensor(c).to(fdt))
        else:
            raise ValueError(kind)
        self.trainable = self.module is not None
        self.hook = None
        if spec.get("hook") and not self.trainable:
            base = self.fun

            def hooked(x):
                if self.hook is not None:
                    self.hook()
                return base(x)

            self.fun = hooked
        if self.trainable:
            if not hasattr(self, "obj"):
                self.obj = E.TrainableEmbedding(self.module, self.domain)
        elif spec.get("wrapped"):
            self.obj = E.FixedEmbedding(self.fun, self.domain)
        else:
            self.obj = None  # pass embed_fun + domain to the model

    def kwargs(self):
        return {"embed_fun": self.obj} if self.obj is not None else {"embed_fun": self.fun, "domain": self.domain}

    # reference vectors; for trainable modules uses the *given* module's current parameters
    def vectors(self, x, module=None):
        if not self.trainable:
            return self.ref(x)
        m = copy.deepcopy(module if module is not None else self.module).double()
        if any(p.is_complex() for p in (module or self.module).parameters()):
            m = copy.deepcopy(module or self.module).to(torch.complex128)
        with torch.no_grad():
            return refs.wide(m(torch.as_tensor(np.asarray(x, float))[..., None]))

    def sums(self, x, module=None):
        """What the rounding of the components at x is relative to, if they are sums which may cancel."""
        if self.kind != "polymod":
            return 0.0
        c = np.abs(refs.wide((module if module is not None else self.module).coef))
        return np.abs(np.asarray(x, float))[..., None] ** np.arange(len(c)) @ c

    def points(self, num=1000):
        if self.cont:
            return np.linspace(self.lo, self.hi, num)
        return np.arange(self.size)

    def lamb(self, module=None, eps=2.0**-23, num=1000):
        """Reference lambda matrix and an elementwise bound for rounding in eps arithmetic."""
        pts = self.points(num)
        v = self.vectors(pts, module)
        mats = np.einsum("bi,bj->bij", v, v.conj())
        if self.cont:
            w = np.full(len(pts), (self.hi - self.lo) / (len(pts) - 1))
            w[0] *= 0.5
            w[-1] *= 0.5
            lam = np.einsum("b,bij->ij", w, mats)
            ab = np.einsum("b,bij->ij", np.abs(w), np.abs(mats))
            # rounding of the points: derivative of the embedding by differences
            dv = np.abs(np.diff(v, axis=0)).max(0) / (abs(self.hi - self.lo) / (len(pts) - 1))
            vm = np.abs(v).max(0)
            dpt = (np.outer(dv, vm) + np.outer(vm, dv)) * (self.hi - self.lo) * max(abs(self.lo), abs(self.hi)) * 4
            # spacing of rounded points
            rel_gap = max(abs(self.lo), abs(self.hi)) / abs(self.hi - self.lo)
            err = eps * (40 * ab + dpt + 8 * rel_gap * ab)
            # evaluation error of the embedding itself in low precision
            err = err + 40 * eps * np.outer(vm, vm) * (self.hi - self.lo)
        else:
            lam = mats.sum(0)
            err = eps * (len(pts) + 8) * np.abs(mats).sum(0)
        # FixedEmbedding may store a nearly diagonal/scalar matrix as exactly that
        err = err + 16 * eps * np.abs(lam).max()
        return lam, err


def emb_spec(rng, d, cplx_model, trainable=None):
    fixed = ["table", "trig", "poly"] + (["onehot"] if d > 1 else [])
    if cplx_model:
        fixed += ["fourier", "ctable"]
    train = ["mlp", "tabmod", "polymod"] + (["cpolymod"] if cplx_model else [])
    kind = pick(rng, train if trainable else fixed if trainable is False else fixed + train)
    s = {"seed": rs(rng), "wrapped": bool(rng.random() < 0.5)}
    if kind == "ctable":
        kind, s["cplx"] = "table", True
    if kind == "cpolymod":
        kind, s["cplx"] = "polymod", True
    s["kind"] = kind
    s["cont"] = kind in ("trig", "poly", "fourier", "mlp", "polymod")
    if s["cont"]:
        lo, hi = pick(rng, [(0, 1), (0, 1), (-1, 1), (0.25, 2.0), (-0.5, 0.1), (2, 3)])
        s["lo"], s["hi"] = lo, hi
        if kind == "trig" and d == 2:
            s["sincos"] = bool(rng.random() < 0.5)
        if kind in ("mlp", "polymod"):
            s["hidden"] = ri(rng, 1, 4)
            s["builtin"] = kind == "mlp" and bool(rng.random() < 0.5)
    else:
        s["size"] = d if kind == "onehot" else ri(rng, 1, 5)
    if kind in ("table", "poly", "fourier", "tabmod"):
        s["scale"] = pick(rng, [1.0, 1.0, 0.3, 5.0])
    return s


# ------------------------------------------------------------------ probabilistic models


def prob_spec(rng, *, kind=None, nmax=7, dmax=4, Dmax=5, emb=None, dtypes=("f32", "f32", "f64"), bias=None,
              dist=None, cplx=None):
    """emb: None = decide at random, False = never, True = always"""
    kind = kind or pick(rng, ["fixed", "unif"])
    n = pick(rng, [1, 2, 3, ri(rng, 1, nmax), ri(rng, 1, nmax)])
    if kind == "unif" and rng.random() < 0.08:
        n = 0
    cplx = bool(rng.random() < 0.45) if cplx is None else cplx
    s = {
        "kind": kind, "n": n, "d": ri(rng, 1, dmax), "D": pick(rng, [1, 2, 3, ri(rng, 1, Dmax), Dmax]),
        "cplx": cplx, "bias": bool(rng.random() < 0.35) if bias is None else bias,
        "init": pick(rng, ["near_eye", "normal"]), "dtype": pick(rng, list(dtypes)),
        "dist": dist or pick(rng, ["init", "normal", "normal", "eye", "sparse", "scaled"]), "seed": rs(rng), "emb": None,
    }
    if emb or (emb is None and rng.random() < 0.4):
        s["emb"] = emb_spec(rng, s["d"], cplx)
    return s


def enlarge(s, rng, budget=3e6, nmax=260, axes=("batch", "D", "d", "n", "o")):
    """Make one axis of a spec large (sizes around powers of two, where blocking would show) and the
    others small; returns the batch size."""
    kind = s["kind"]
    axes = [a for a in axes if not (a == "o" and kind in ("fixed", "unif"))]
    ax = pick(rng, axes)
    s["D"], s["d"], s["n"] = ri(rng, 1, 3), pick(rng, [2, 2, ri(rng, 1, 3)]), ri(rng, 1, 5)
    if "o" in s:
        s["o"] = ri(rng, 1, 3)
    s["dist"] = pick(rng, ["normal", "eye"])
    if kind in ("fixed", "unif"):
        s["emb"] = None
        s.setdefault("inp", pick(rng, ["sym", "vec"]))
    if kind == "mps":
        s["path"] = None
        s.pop("width", None)
    batch = ri(rng, 1, 4)
    if ax == "batch":
        batch = pick(rng, [65, 129, 130, 257, 513, 600, 1025, 2049, ri(rng, 100, 3000)])
    elif ax == "D":
        s["D"] = pick(rng, [16, 17, 32, 33, 50, 65])
        s["n"], s["d"] = ri(rng, 2, 5), min(s["d"], 2)
    elif ax == "d":
        s["d"] = pick(rng, [17, 33, 65, 129, 300])
    elif ax == "n":
        s["n"] = min(nmax, pick(rng, [33, 65, 100, 129, 257]))
        s["dist"] = "eye"
    elif ax == "o":
        s["o"] = pick(rng, [17, 40, 65, 100])
    if kind == "mps":
        s["label"] = pick(rng, [None, 0, s["n"], ri(rng, 0, s["n"])])
    if kind == "ti" and s["fixed_ends"]:
        s["D"] = max(s["D"], s["o"])
    while batch * max(s["n"], 1) * s["D"] ** 2 * s.get("o", 1) * (s["D"] if s.get("pbc") else 1) > budget and batch > 1:
        batch = batch * 2 // 3
    s["large"] = ax
    return batch


def build_prob(s, domain=None, emb=None):
    """Returns model (parameters set according to the spec) and its Emb (or None)."""
    from torchmps import ProbMPS, ProbUnifMPS

    fdt = F[s["dtype"]]
    torch.manual_seed(s["seed"])
    torch.set_default_dtype(fdt)
    try:
        if emb is None:
            emb = Emb(s["emb"], s["d"], fdt, domain) if s.get("emb") else None
        kw = dict(complex_params=s["cplx"], use_bias=s["bias"], init_method=s["init"])
        if emb is not None:
            kw.update(emb.kwargs())
        if s["kind"] == "fixed":
            model = ProbMPS(s["n"], s["d"], s["D"], **kw)
        else:
            model = ProbUnifMPS(s["d"], s["D"], **kw)
    finally:
        torch.set_default_dtype(torch.float32)
    set_params(model, s["dist"], np.random.default_rng(s["seed"] + 1), s.get("pscale"))
    return model, emb


def train_steps(model, opt, lossf, num, clip=1.0):
    """Optimizer steps with clipped gradients; stops when the loss or a gradient is not finite."""
    for _ in range(num):
        opt.zero_grad()
        loss = lossf()
        if not torch.isfinite(loss) or not loss.requires_grad:
            return
        loss.backward()
        grads = [p.grad for p in model.parameters() if p.grad is not None]
        norm = math.sqrt(sum(float((g.abs().double() ** 2).sum()) for g in grads))
        if not math.isfinite(norm):
            return
        if norm > clip:
            for g in grads:
                g.mul_(clip / norm)
        opt.step()


def freeze(model, rng, among=None):
    """Some parameters are frozen, others (of those already met here) thawed."""
    for p in model.parameters() if among is None else among:
        p.requires_grad_(bool(rng.random() < 0.5))
        p.grad = None


def rand_like(p, rng, scale=1.0):
    v = rng.normal(size=tuple(p.shape)) * scale
    if p.is_complex():
        v = v + 1j * rng.normal(size=tuple(p.shape)) * scale
    return torch.tensor(v).to(p.dtype)


@torch.no_grad()
def put(p, v):
    """Gives a parameter a value in one of the ways users do: in place, or through .data (seen by no version counter)."""
    with torch.no_grad():
        v = v.to(p.dtype)
        how = int(abs(float(v.reshape(-1)[0].real)) * 1e6) % 10 if v.numel() and torch.isfinite(v.reshape(-1)[:1].abs()).all() else 9
        if how < 2:
            p.data.copy_(v)
        elif how < 4 and v.shape == p.shape:
            p.data = v.clone()
        else:
            p.copy_(v)


@torch.no_grad()
def set_params(model, dist, rng, pscale=None):
    if dist == "asis":
        return
    own = {k: p for k, p in model.named_parameters() if "." not in k}
    for k, p in own.items():
        D = p.shape[-1]
        if dist == "init":
            if k == "bias_mat":
                p += rand_like(p, rng, 0.3)
            continue
        if k == "edge_vecs":
            v = rand_like(p, rng)
        elif k == "bias_mat":
            v = rand_like(p, rng, 0.5 / math.sqrt(D))
        else:
            v = rand_like(p, rng, 1.0 / math.sqrt(D))
            if dist == "eye":
                v = 0.3 * v + torch.eye(D, dtype=p.dtype)
            elif dist == "sparse":
                keep = torch.tensor(rng.random(tuple(p.shape)) < 0.6)
                v = torch.where(keep, v, torch.zeros_like(v))
        if dist == "scaled":
            v = v * 10.0 ** rng.uniform(-2, 2)
        put(p, v)


def prob_parts(model, s):
    """Current effective cores (n, d, D, D), boundary vectors, as wide arrays (bias added)."""
    c = refs.wide(model.core_tensors)
    e = refs.wide(model.edge_vecs)
    if s["bias"]:
        c = c + refs.wide(model.bias_mat)
    absc = np.abs(refs.wide(model.core_tensors)) + (np.abs(refs.wide(model.bias_mat)) if s["bias"] else 0)
    if s["kind"] == "unif":
        c = np.broadcast_to(c, (s["n"],) + c.shape)
        absc = np.broadcast_to(absc, (s["n"],) + absc.shape)
    return c, e[0], e[1], absc


def prob_input(s, rng, batch, emb=None):
    """An input batch for the model as torch tensor, and the (B, n, d) weights in the reference."""
    n, d = s["n"], s["d"]
    fdt = F[s["dtype"]]
    if emb is not None:
        if emb.cont:
            x = rng.uniform(emb.lo, emb.hi, size=(batch, n))
            if rng.random() < 0.3 and x.size:
                x.flat[int(rng.integers(x.size))] = emb.lo
                x.flat[int(rng.integers(x.size))] = emb.hi
            t = torch.tensor(x).to(fdt)
        else:
            t = torch.tensor(rng.integers(0, emb.size, size=(batch, n)), dtype=torch.long)
        return t, None
    mode = s.get("inp", "sym")
    if mode == "sym":
        x = rng.integers(0, d, size=(batch, n))
        return torch.tensor(x, dtype=torch.long), np.eye(d)[x]
    v = rng.normal(size=(batch, n, d))
    if mode == "prob":
        v = np.abs(v) + 0.05
        v /= v.sum(-1, keepdims=True)
    if mode == "onehotvec":
        v = np.eye(d)[rng.integers(0, d, size=(batch, n))]
    if s["cplx"] and mode == "cvec":
        v = v + 1j * rng.normal(size=v.shape)
        t = torch.tensor(v).to(torch.complex64 if s["dtype"] == "f32" else torch.complex128)
    else:
        t = torch.tensor(v).to(fdt)
    return t, refs.wide(t)


class ProbRef:
    """Reference log probabilities of the model's current parameters."""

    def __init__(self, model, s, emb=None, module=None):
        self.s, self.emb = s, emb
        self.eps = 2.0**-23 if s["dtype"] == "f32" else 2.0**-52
        self.cores, self.L, self.R, self.absc = prob_parts(model, s)
        lamb = lerr = None
        self.module = module
        if emb is not None:
            lamb, lerr = emb.lamb(module, self.eps)
        self.lamb = lamb
        self.logZ, self.Zrel = refs.log_norm(self.cores, self.L, self.R, self.eps, lamb, lerr)

    @property
    def usable(self):
        """Is the norm a well-determined finite nonzero number?"""
        return np.isfinite(self.logZ) and self.Zrel < 0.5

    def weights(self, t, w=None):
        if w is not None:
            return w
        return self.emb.vectors(refs.wide(t), self.module)

    def chain(self, w, t=None):
        mats = np.einsum("bti,tide->btde", w, self.cores)
        aw = np.abs(w)
        if self.emb is not None and self.emb.cont and aw.size:
            aw = aw + aw.max(-1, keepdims=True)  # rounding of the embedding is relative to the whole vector
            if t is not None:
                aw = np.maximum(aw, self.emb.sums(refs.wide(t), self.module))
        absm = np.einsum("bti,tide->btde", aw, self.absc)
        inner = self.cores.shape[1] + 2
        if self.emb is not None:
            inner += 24  # rounding of the embedding functions themselves
        return refs.Chain(mats, self.L, self.R, self.eps, absm, inner=inner)

    def logp(self, t, w=None):
        ch = self.chain(self.weights(t, w), t if w is None else None)
        val = 2 * ch.logabs - self.logZ
        with np.errstate(invalid="ignore"):
            tol = 2 * ch.rel + 2 * ch.logerr + self.Zrel + 16 * self.eps * (
                1 + np.abs(2 * ch.logabs) + abs(self.logZ))
        return val, tol, ch

    def check(self, got, t, w=None, what="log probability", obs=None):
        """got: tensor of log probs"""
        need(isinstance(got, torch.Tensor), f"{what}: not a tensor")
        need(not got.is_complex(), f"{what}: complex result", dtype=str(got.dtype))
        val, tol, ch = self.logp(t, w)
        g = refs.wide(got)
        need(g.shape == val.shape, f"{what}: wrong shape", got=g.shape, want=val.shape)
        need(not np.isnan(g).any(), f"{what}: NaN", got=g[:5])
        if self.Zrel > 0.5:
            raise Skip("normalization too ill-conditioned")
        ok = ch.rel < 0.5
        refs.close(g[ok], val[ok], tol[ok], what)
        # rows whose amplitude is lost in rounding: it must be small, though
        lim = 2 * (np.log(np.abs(ch.m[~ok]) + ch.err[~ok] + 1e-300) + ch.e[~ok]) - self.logZ
        bad = g[~ok] > lim + 2 * ch.logerr[~ok] + self.Zrel + 1e-3
        need(not bad.any(), f"{what}: too large for a vanishing amplitude")
        if obs is not None:
            obs.hit("rows_decided", int(ok.sum()))
            obs.hit("rows_bounded", int((~ok).sum()))
            if ok.any():
                obs.high("worst_error/tolerance", np.max(np.abs(g[ok] - val[ok]) / tol[ok]))
                obs.high("tolerance", tol[ok].max())
        return val, tol


# ------------------------------------------------------------------ MPS / TI_MPS


def mps_spec(rng, *, nmax=7, Dmax=4, adaptive=None, dtypes=("f32", "f32", "f64"), path=True, omax=4, dmax=3):
    n = pick(rng, [1, 2, 3, 4, ri(rng, 1, nmax), ri(rng, 1, nmax)])
    ad = bool(rng.random() < 0.3) if adaptive is None else adaptive
    s = {
        "kind": "mps", "n": n, "o": ri(rng, 1, omax), "D": pick(rng, [1, 2, 3, ri(rng, 1, Dmax), Dmax]),
        "d": pick(rng, [2, 2, ri(rng, 1, dmax)]), "pbc": bool(rng.random() < 0.4), "par": bool(rng.random() < 0.5),
        "label": pick(rng, [None, 0, n, ri(rng, 0, n), ri(rng, 0, n)]), "bias": bool(rng.random() < 0.6) and not ad,
        "adaptive": ad, "path": None, "seed": rs(rng), "dtype": pick(rng, list(dtypes)),
        "dist": pick(rng, ["init", "normal", "normal", "eye", "sparse"]),
    }
    if ad:
        s["cutoff"] = pick(rng, [1e-10, 1e-10, 1e-4])
        s["thresh"] = pick(rng, [1, 5, 2000])
    if path and rng.random() < 0.35:
        m = pick(rng, [n, ri(rng, 1, n + 3)])
        s["width"] = m
        k = pick(rng, ["perm", "rand"])
        p = rng.permutation(max(m, n))[:n] % m if k == "perm" else rng.integers(0, m, size=n)
        s["path"] = [int(i) for i in p]
        s["path_tensor"] = bool(rng.random() < 0.3)
    return s


def build_mps(s, dist=True):
    from torchmps import MPS

    torch.manual_seed(s["seed"])
    kw = {}
    if s.get("path") is not None:
        kw["path"] = torch.tensor(s["path"]) if s.get("path_tensor") else list(s["path"])
    if s["adaptive"]:
        kw.update(adaptive_mode=True, cutoff=s.get("cutoff", 1e-10), merge_threshold=s.get("thresh", 2000))
    if s.get("init_std") is not None:
        kw["init_std"] = s["init_std"]
    model = MPS(input_dim=s["n"], output_dim=s["o"], bond_dim=s["D"], feature_dim=s["d"], periodic_bc=s["pbc"],
                parallel_eval=s["par"], label_site=s["label"], use_bias=s["bias"], **kw)
    if s["dtype"] == "f64":
        model = model.double()
    if dist:
        set_net_params(model, s["dist"], np.random.default_rng(s["seed"] + 1))
    return model


@torch.no_grad()
def set_net_params(model, dist, rng, scale=1.0):
    if dist == "init":
        return
    for k, p in model.named_parameters():
        if p.numel() == 0:
            continue
        D = p.shape[-2] if p.ndim >= 3 else p.shape[-1]
        v = rand_like(p, rng, scale / math.sqrt(max(D, 1)))
        if dist == "eye":
            v = p + 0.2 * v
        elif dist == "sparse":
            v = torch.where(torch.tensor(rng.random(tuple(p.shape)) < 0.6), v, torch.zeros_like(v))
        put(p, v)


def net_nodes(model):
    """The active network of an MPS: list of (kind, tensor, extra) in chain order."""
    region = model.linear_region
    out = []
    for m in region.module_list:
        name = type(m).__name__
        t = m.tensor
        if name == "InputRegion":
            b = m.bias_mat if getattr(m, "use_bias", False) and m.bias_mat is not None else None
            out.append(("region", t, b))
        elif name == "MergedInput":
            out.append(("merged", t, None))
        elif name == "InputSite":
            out.append(("site", t, None))
        elif name == "OutputSite":
            out.append(("out", t, None))
        elif name == "MergedOutput":
            out.append(("mout", t, m.left_output))
        else:
            fail("unknown kind of core in the module list", name=name)
    return out


def net_mats(nodes, x):
    """Per-node matrices for embedded input x (B, n, d): (mats (B,k,D,D), absmats, output position,
    output core (B,o,D,D), its abs)."""
    B, n, d = x.shape
    ax = np.abs(x)
    mats, absm, core, acore, pos = [], [], None, None, None
    i = 0
    for kind, t, extra in nodes:
        t = refs.wide(t)
        a = np.abs(t)
        if kind == "region":
            b = refs.wide(extra).reshape(t.shape[1:3]) if extra is not None else 0.0
            for k in range(t.shape[0]):
                mats.append(np.einsum("lri,bi->blr", t[k], x[:, i]) + b)
                absm.append(np.einsum("lri,bi->blr", a[k], ax[:, i]) + np.abs(b))
                i += 1
        elif kind == "merged":
            for k in range(t.shape[0]):
                mats.append(np.einsum("lrij,bi,bj->blr", t[k], x[:, i], x[:, i + 1]))
                absm.append(np.einsum("lrij,bi,bj->blr", a[k], ax[:, i], ax[:, i + 1]))
                i += 2
        elif kind == "site":
            mats.append(np.einsum("lri,bi->blr", t, x[:, i]))
            absm.append(np.einsum("lri,bi->blr", a, ax[:, i]))
            i += 1
        elif kind == "out":
            need(core is None, "more than one output core")
            pos, core, acore = len(mats), np.broadcast_to(t, (B,) + t.shape), np.broadcast_to(a, (B,) + a.shape)
        elif kind == "mout":
            need(core is None, "more than one output core")
            pos = len(mats)
            core = np.einsum("olri,bi->bolr", t, x[:, i])
            acore = np.einsum("olri,bi->bolr", a, ax[:, i])
            i += 1
    need(i == n, "the cores do not take all inputs", used=i, n=n)
    need(core is not None, "no output core")
    return mats, absm, pos, core, acore


def net_eval(nodes, x, pbc, eps):
    """Reference output (B, o) and error bound of the network on embedded wide input x."""
    mats, absm, pos, core, acore = net_mats(nodes, x)
    B, o, D = core.shape[0], core.shape[1], core.shape[2]

    def rep(ms, c):
        full = [np.broadcast_to(m[:, None], (B, o) + m.shape[1:]).reshape(B * o, *m.shape[1:]) for m in ms]
        full.insert(pos, c.reshape(B * o, *c.shape[2:]))
        return np.stack(full, 1)

    M, A = rep(mats, core), rep(absm, acore)
    inner = x.shape[2] ** 2 + 2
    e = np.eye(D)
    if not pbc:
        ch = refs.Chain(M, e[0], e[0], eps, A, inner=inner)
        return ch.value().reshape(B, o), (ch.abserr() + 1e-30).reshape(B, o)
    tot, err = 0, 0
    for a in range(D):
        ch = refs.Chain(M, e[a], e[a], eps, A, inner=inner)
        tot = tot + ch.value()
        err = err + ch.abserr()
    return tot.reshape(B, o), (err + 1e-30 + 4 * D * eps * np.abs(tot)).reshape(B, o)


def mps_input(s, rng, batch):
    """(tensor to feed, embedded wide array in path order)"""
    width = s.get("width", s["n"])
    fdt = F[s["dtype"]]
    emb = s.get("pre", s["d"] != 2)
    if emb:
        v = torch.tensor(rng.normal(size=(batch, width, s["d"]))).to(fdt)
        w = refs.wide(v)
    else:
        lo, hi = s.get("xr", (0.0, 1.0))
        v = rng.uniform(lo, hi, size=(batch, width))
        if s.get("rows_differ") and rng.random() < 0.5:
            # data need not come from the unit interval
            v = v * rng.choice([1.0, 1.0, -1.0, 2.5], size=(batch, 1))
        v = torch.tensor(v).to(fdt)
        xw = refs.wide(v)
        w = np.stack([xw, 1 - xw], -1)
    if s.get("path") is not None:
        w = w[:, s["path"]]
    return v, w


def eps_s(s):
    return 2.0**-23 if s["dtype"] == "f32" else 2.0**-52


def mps_ref(model, s, w):
    return net_eval(net_nodes(model), w, s["pbc"], eps_s(s))


def check_out(got, want, err, what, obs=None, dtype=None):
    need(isinstance(got, torch.Tensor), f"{what}: not a tensor")
    if dtype is not None:
        need(got.dtype == dtype, f"{what}: dtype", got=str(got.dtype), want=str(dtype))
    g = refs.wide(got)
    # no verdict where the numbers leave the range of the type
    out = np.asarray(err, dtype=float) > (1e29 if got.dtype in (torch.float32, torch.complex64) else 1e290)
    if out.any():
        need(g.shape == np.shape(want), f"{what}: shape", got=g.shape, want=np.shape(want))
        out = np.broadcast_to(out, g.shape)
        g, err = np.where(out, want, g), np.where(out, 1, err)
    if obs is not None and out.any():
        obs.hit("outputs_out_of_range", int(out.sum()))
    refs.close(np.where(out, 0, g), np.where(out, 0, want), err, what)
    if obs is not None:
        obs.hit("outputs_decided", g.size - int(out.sum()))
        with np.errstate(divide="ignore", invalid="ignore"):
            if g.size:
                obs.high("worst_error/tolerance", np.nanmax(np.where(out, 0, np.abs(g - want) / err)))


def ti_spec(rng, *, dtypes=("f32", "f32", "f64"), Dmax=4):
    ub = bool(rng.random() < 0.75)
    fe = bool(rng.random() < 0.5)
    D = ri(rng, 1, Dmax)
    return {
        "kind": "ti", "o": ri(rng, 1, D if fe else 4), "D": D, "d": pick(rng, [2, 2, 2, 1, 3]),
        "par": bool(rng.random() < 0.5), "fixed_ends": fe, "bias": ub, "fixed_bias": bool(rng.random() < 0.7),
        "dtype": pick(rng, list(dtypes)), "dist": pick(rng, ["init", "normal", "eye", "sparse"]), "seed": rs(rng),
    }


def build_ti(s):
    from torchmps import TI_MPS

    torch.manual_seed(s["seed"])
    model = TI_MPS(output_dim=s["o"], bond_dim=s["D"], feature_dim=s["d"], parallel_eval=s["par"],
                   fixed_ends=s["fixed_ends"], use_bias=s["bias"], fixed_bias=s["fixed_bias"])
    if s["dtype"] == "f64":
        model = model.double()
    set_net_params(model, s["dist"], np.random.default_rng(s["seed"] + 1))
    return model


def ti_ref(model, s, w):
    """w: (B, n, d) embedded"""
    core = refs.wide(model.core_tensor)
    bias = refs.wide(model.bias_mat).reshape(core.shape[:2]) if s["bias"] else np.zeros(core.shape[:2])
    vec, mat = refs.wide(model.init_vector.vec), refs.wide(model.terminal_mat.mat)
    B, n, d = w.shape
    D, o = mat.shape
    M = np.einsum("lri,bsi->bslr", core, w) + bias
    A = np.einsum("lri,bsi->bslr", np.abs(core), np.abs(w)) + np.abs(bias)
    out, err = np.zeros((B, o)), np.zeros((B, o))
    for k in range(o):
        ch = refs.Chain(M, vec, mat[:, k], eps_s(s), A, inner=d + 2)
        out[:, k], err[:, k] = ch.value(), ch.abserr() + 1e-30
    return out, err


def ti_weights(t, s):
    """default embedding of raw (…, n) array or pre-embedded"""
    x = refs.wide(t)
    if x.ndim == 2:
        x = np.stack([x, 1 - x], -1)
    return x
