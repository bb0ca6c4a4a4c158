"""Reference functions in torch double precision, used for gradients through autograd.

Naive ordered products of the models' parameters; together with every derivative an elementwise
rounding bound is computed from the same function of absolute values (the functions are
multilinear in cores, boundary vectors and inputs).
"""
import copy

import numpy as np
import torch

from rtm import refs


def dbl(t):
    t = t.detach().clone()
    return t.to(torch.complex128 if t.is_complex() else torch.float64)


def leaf(t):
    return dbl(t).requires_grad_(True)


def leafabs(t):
    return dbl(t).abs().requires_grad_(True)


def chain(mats, L, R):
    """mats (B, n, D, D); L, R (D,) -> (B,)"""
    B = mats.shape[0]
    v = L.expand(B, L.shape[-1])
    for k in range(mats.shape[1]):
        v = torch.einsum("bi,bij->bj", v, mats[:, k])
    return torch.einsum("bi,bi->b", v, R.expand(B, R.shape[-1]))


def norm2(cores, L, R, lamb):
    """sum of squared amplitudes; cores (n, d, D, D), lamb (d, d)"""
    dm = L[:, None] * L.conj()[None]
    for c in cores:
        w = torch.einsum("ij,ilr->jlr", lamb, c)
        dm = torch.einsum("jlr,lp,jpq->rq", w, dm, c.conj())
    return torch.einsum("rq,r,q->", dm, R, R.conj()).real


def g0(outs, inputs):
    gs = torch.autograd.grad(outs, inputs, allow_unused=True)
    return [torch.zeros_like(i) if g is None else g for g, i in zip(gs, inputs)]


def prob_grads(model, s, t, w=None, emb=None, safety=8.0):
    """Loss value, {param name: (grad, tol)}, (grad, tol) of the float input or None, conditioning.

    w: (B, n, d) reference weights when there is no embedding."""
    eps = 2.0**-23 if s["dtype"] == "f32" else 2.0**-52
    own = {k: p for k, p in model.named_parameters() if "." not in k}
    P = {k: leaf(p) for k, p in own.items()}
    A = {k: leafabs(p) for k, p in own.items()}
    n, d, D = s["n"], s["d"], s["D"]
    cdt = torch.complex128 if s["cplx"] else torch.float64
    module, mleaf = None, []
    lerr = torch.zeros(d, d, dtype=torch.float64)
    if emb is None:
        lamb = torch.eye(d, dtype=torch.float64)
        x = torch.tensor(w).requires_grad_(True)
    elif emb.trainable:
        module = copy.deepcopy(emb.module)
        cm = any(p.is_complex() for p in module.parameters())
        module = module.to(torch.complex128) if cm else module.double()
        mleaf = list(module.parameters())
        x0 = torch.tensor(np.asarray(refs.wide(t), float))
        if emb.cont:
            x0.requires_grad_(True)
        pts = torch.tensor(np.asarray(emb.points(), float))
        v = module(pts[:, None])
        vv = torch.einsum("bi,bj->bij", v, v.conj())
        lamb = torch.trapezoid(vv, pts, dim=0) if emb.cont else vv.sum(0)
        x = module(x0[..., None])
        lerr = torch.tensor(emb.lamb(module=emb.module, eps=eps)[1])
    else:
        lam, le = emb.lamb(eps=eps)
        lamb, lerr = torch.tensor(lam), torch.tensor(le)
        x = torch.tensor(emb.vectors(refs.wide(t))).requires_grad_(True)
    if x.is_complex() or lamb.is_complex():
        cdt = torch.complex128

    def eff(Q, absolute=False):
        c = Q["core_tensors"]
        if s["bias"]:
            c = c + Q["bias_mat"]
        if s["kind"] == "unif":
            c = c.expand((n,) + c.shape)
        c = c if absolute else c.to(cdt)
        e = Q["edge_vecs"] if absolute else Q["edge_vecs"].to(cdt)
        return c, e

    c, e = eff(P)
    psi = chain(torch.einsum("bti,tide->btde", x.to(cdt), c), e[0], e[1])
    Z = norm2(c, e[0], e[1], lamb.to(cdt))
    logp = 2 * torch.log(psi.abs()) - torch.log(Z)
    loss = -logp.mean()
    names = list(P)
    inputs = [P[k] for k in names] + mleaf + ([x] if emb is None or not emb.trainable else [x0] if emb.cont else [])
    grads = g0(loss, inputs)

    ca, ea = eff(A, True)
    xa = dbl(x).abs()
    if emb is not None and emb.cont and xa.numel():
        xa = xa + xa.amax(-1, keepdim=True)  # rounding of the embedding is relative to the whole vector
    xa = xa.detach().requires_grad_(True)
    pa = chain(torch.einsum("bti,tide->btde", xa, ca), ea[0], ea[1])
    labs = dbl(lamb).abs()
    gam = safety * eps * (n + 2) * (2 * D + 2 * d + 8)
    za = norm2(ca, ea[0], ea[1], labs + dbl(lerr).abs() / gam)
    with torch.no_grad():
        cond = pa / psi.abs()
        zc = (za / Z).clamp(min=1)
        B = psi.shape[0]
        wts = 2 * (1 + cond) / psi.abs() / B
    bound = (wts * pa).sum() + (1 + zc) / Z.detach() * za
    tols = g0(bound, [A[k] for k in names] + [xa])
    # the log scales add derivatives which cancel up to rounding
    tols = [t + (t.max() if t.numel() else 0) for t in tols]
    out = {}
    for i, k in enumerate(names):
        out[k] = (grads[i].detach().numpy(), gam * tols[i].numpy() + 1e-300)
    condmax = float(torch.maximum(cond.max() if B else cond.new_zeros(()), zc))
    gin = None
    if emb is None or not emb.trainable:
        gin = (grads[-1].detach().numpy(), gam * tols[-1].numpy() + 1e-300)
    elif emb.cont:
        gin = (grads[-1].detach().numpy(), None)
    mout = []
    coarse = gam * (1 + min(condmax, 1e100)) ** 2 * 30
    for i in range(len(mleaf)):
        g = grads[len(names) + i].detach().numpy()
        mout.append((g, None))
    if mleaf:
        # coarse scale: derivatives of the two parts separately
        part = g0(2 * torch.log(chain(torch.einsum("bti,tide->btde", module(x0[..., None]).to(cdt), eff(P)[0]),
                                      eff(P)[1][0], eff(P)[1][1]).abs()).abs().sum(), mleaf)
        S = max([float(abs(g).max()) for g, _ in mout] + [float(p.abs().max()) for p in part if p.numel()] + [1e-12])
        mout = [(g, coarse * S + 30 * eps * S) for g, _ in mout]
        if gin is not None:
            S = max(float(np.abs(gin[0]).max(initial=0)), S, 1.0)
            gin = (gin[0], np.full(gin[0].shape, coarse * S + 30 * eps * S))
    return float(loss.detach()), out, mout, gin, condmax


# ------------------------------------------------------------------ classifier networks


def region_mats(core, bias, x):
    """core (n, D, D, d), bias None or (1, D, D), x (B, n, d)"""
    m = torch.einsum("slri,bsi->bslr", core, x)
    return m if bias is None else m + bias


def mps_value(nodes, x, pbc):
    """nodes: list of (kind, tensor leaf, bias leaf or left_output flag) -> (B, o)"""
    B = x.shape[0]
    mats, core, pos, i = [], None, None, 0
    for kind, t, extra in nodes:
        if kind == "region":
            k = t.shape[0]
            m = region_mats(t, extra, x[:, i : i + k])
            mats += [m[:, j] for j in range(k)]
            i += k
        elif kind == "merged":
            for k in range(t.shape[0]):
                mats.append(torch.einsum("lrij,bi,bj->blr", t[k], x[:, i], x[:, i + 1]))
                i += 2
        elif kind == "site":
            mats.append(torch.einsum("lri,bi->blr", t, x[:, i]))
            i += 1
        elif kind == "out":
            pos, core = len(mats), t.expand((B,) + t.shape)
        elif kind == "mout":
            pos, core = len(mats), torch.einsum("olri,bi->bolr", t, x[:, i])
            i += 1
    D = core.shape[-1]
    eye = torch.eye(D, dtype=x.dtype)
    left = eye if pbc else eye[:1]  # (k, D)
    v = left.expand(B, *left.shape)
    for m in mats[:pos]:
        v = torch.einsum("bkl,blr->bkr", v, m)
    v = torch.einsum("bkl,bolr->bkor", v, core)
    for m in mats[pos:]:
        v = torch.einsum("bkol,blr->bkor", v, m)
    return torch.einsum("bkor,kr->bo", v, left)


def net_grads(model, s, w, W, safety=8.0):
    """For loss sum(W * out): {id(param): (grad, tol)}, (input grad, tol), out.

    w: (B, n, d) embedded; W: (B, o)."""
    from rtm import gen as G

    eps = G.eps_s(s)
    nodes = G.net_nodes(model)

    def build(f):
        lst, ids = [], []
        for kind, t, extra in nodes:
            l = f(t)
            ids.append((id(t), l))
            if isinstance(extra, torch.Tensor):
                b = f(extra)
                ids.append((id(extra), b))
                extra = b
            lst.append((kind, l, extra))
        return lst, ids

    x = torch.tensor(w).requires_grad_(True)
    lst, ids = build(leaf)
    out = mps_value(lst, x, s["pbc"])
    Wt = torch.tensor(W)
    grads = g0((out * Wt).sum(), [l for _, l in ids] + [x])
    xa = torch.tensor(np.abs(w)).requires_grad_(True)
    alst, aids = build(leafabs)
    bound = (mps_value(alst, xa, s["pbc"]) * Wt.abs()).sum()
    tols = g0(bound, [l for _, l in aids] + [xa])
    gam = safety * eps * (s["n"] + 3) * (2 * s["D"] + s["d"] ** 2 + 6)
    res = {i: (g.numpy(), gam * tt.numpy() + 1e-30) for (i, _), g, tt in zip(ids, grads, tols)}
    return res, (grads[-1].numpy(), gam * tols[-1].numpy() + 1e-30), out.detach().numpy()


def ti_value(core, bias, vec, mat, w):
    B, n, _ = w.shape
    M = torch.einsum("lri,bsi->bslr", core, w)
    if bias is not None:
        M = M + bias
    v = vec.expand(B, len(vec))
    for k in range(n):
        v = torch.einsum("bl,blr->br", v, M[:, k])
    return v @ mat


def ti_grads(model, s, w, W, safety=8.0):
    from rtm import gen as G

    eps = G.eps_s(s)
    ts = {"core_tensor": model.core_tensor, "init_vector.vec": model.init_vector.vec,
          "terminal_mat.mat": model.terminal_mat.mat}
    if s["bias"]:
        ts["bias_mat"] = model.bias_mat

    def val(f, w):
        l = {k: f(t) for k, t in ts.items()}
        x = torch.tensor(w).requires_grad_(True)
        b = l["bias_mat"].reshape(l["core_tensor"].shape[:2]) if s["bias"] else None
        return ti_value(l["core_tensor"], b, l["init_vector.vec"], l["terminal_mat.mat"], x), l, x

    Wt = torch.tensor(W)
    out, l, x = val(leaf, w)
    grads = g0((out * Wt).sum(), list(l.values()) + [x])
    outa, la, xa = val(leafabs, np.abs(w))
    tols = g0((outa * Wt.abs()).sum(), list(la.values()) + [xa])
    gam = safety * eps * (w.shape[1] + 3) * (2 * s["D"] + s["d"] + 6)
    res = {k: (g.numpy(), gam * t.numpy() + 1e-30) for k, g, t in zip(ts, grads, tols)}
    return res, (grads[-1].numpy(), gam * tols[-1].numpy() + 1e-30), out.detach().numpy()
