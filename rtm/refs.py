"""Independent float64 reference mathematics with running error bounds.

Nothing here calls torchmps.  Values come from plain ordered products; the error bounds are
first-order running-error bounds (local rounding of each multiplication, propagated through the
exact prefix and suffix), for left-to-right, right-to-left and balanced-tree evaluation alike.
"""
import numpy as np

EPS = {"float32": 2.0**-23, "float64": 2.0**-52, "complex64": 2.0**-23, "complex128": 2.0**-52}


def eps_of(dtype):
    return EPS[str(dtype).replace("torch.", "")]


def wide(t):
    """torch tensor -> float64/complex128 array"""
    import torch

    if isinstance(t, torch.Tensor):
        t = t.detach().resolve_conj().resolve_neg().cpu().numpy()
    t = np.asarray(t)
    return t.astype(np.complex128 if np.iscomplexobj(t) else np.float64)


def _norm(x, axes):
    """Scale x by its max abs over axes; returns scaled, log of the scale (0 for zero)."""
    s = np.abs(x).max(axis=axes, keepdims=True) if x.size else np.ones([1 if k in axes else m for k, m in enumerate(x.shape)])
    z = s == 0
    s = np.where(z, 1.0, s)
    return x / s, np.log(s), z


class Chain:
    """L . M_1 ... M_n . R for a batch, in log format, with an error bound.

    mats: (B, n, D, D); L, R: (D,) or (B, D).  absm: elementwise bound for |M| if the matrices
    themselves came out of an inner product (default |M|).
    value = m * exp(e), |error of an eps-arithmetic evaluation| <= err * exp(e),
    and logs of scales carry an extra absolute error logerr.
    """

    def __init__(self, mats, L, R, eps, absm=None, inner=1, safety=4.0):
        mats = np.asarray(mats)
        B, n, D, _ = mats.shape
        L = np.broadcast_to(L, (B, D))
        R = np.broadcast_to(R, (B, D))
        absm = np.abs(mats) if absm is None else absm
        sc = absm.max(axis=(2, 3), keepdims=True) if n else np.ones((B, 0, 1, 1))
        sc = np.where(sc == 0, 1.0, sc)
        ms, ab = mats / sc, absm / sc
        logm = np.log(sc[..., 0, 0])  # (B, n)
        self.B, self.n, self.D = B, n, D

        p, lp = [], []
        v, s, _ = _norm(L, (1,))
        l = s[:, 0]
        p.append(v), lp.append(l)
        for k in range(n):
            v = np.einsum("bi,bij->bj", v, ms[:, k])
            v, s, _ = _norm(v, (1,))
            l = l + s[:, 0] + logm[:, k]
            p.append(v), lp.append(l)
        q, lq = [None] * (n + 1), [None] * (n + 1)
        v, s, _ = _norm(R, (1,))
        l = s[:, 0]
        q[n], lq[n] = v, l
        for k in range(n - 1, -1, -1):
            v = np.einsum("bij,bj->bi", ms[:, k], v)
            v, s, _ = _norm(v, (1,))
            l = l + s[:, 0] + logm[:, k]
            q[k], lq[k] = v, l
        p, q = np.array(p), np.array(q)  # (n+1, B, D)
        lp, lq = np.array(lp), np.array(lq)  # (n+1, B)

        # a common exponent: the largest magnitude met
        ex = [lp[k] + lq[k] for k in range(n + 1)]
        e = np.max(ex, axis=0)
        self.e = e
        mid = n // 2
        self.m = np.einsum("bi,bi->b", p[mid], q[mid]) * np.exp(lp[mid] + lq[mid] - e)

        gam = (2 * D + inner + 8) * eps
        # entries which can be nonzero at all; smaller ones than `tiny` are lost next to larger ones
        nz = mats != 0
        sp, sq = [np.asarray(L) != 0], [np.asarray(R) != 0]
        for k in range(n):
            sp.append(np.einsum("bi,bij->bj", sp[-1], nz[:, k]))
            sq.append(np.einsum("bij,bj->bi", nz[:, n - 1 - k], sq[-1]))
        sup = np.array(sp) & np.array(sq[::-1])  # (n+1, B, D)
        tiny = 1.2e-38 if eps > 1e-10 else 2.3e-308
        with np.errstate(over="ignore"):
            lost = np.einsum("kbi,kbi->kb", sup, np.abs(q)) * np.exp(np.minimum(lp + lq - e, 600))
            lost = lost + np.einsum("kbi,kbi->kb", sup, np.abs(p)) * np.exp(np.minimum(lp + lq - e, 600))
        terms = np.einsum("bi,bi->b", np.abs(p[n]), np.abs(q[n])) * np.exp(lp[n] + lq[n] - e)
        terms = terms + np.einsum("bi,bi->b", np.abs(p[0]), np.abs(q[0])) * np.exp(lp[0] + lq[0] - e)
        if n:
            loc = np.einsum("kbi,bkij,kbj->kb", np.abs(p[:-1]), ab, np.abs(q[1:]))
            terms = terms + (loc * np.exp(lp[:-1] + logm.T + lq[1:] - e)).sum(0)
        # balanced tree: product nodes
        X, lX = ms, logm
        starts = list(range(n + 1))
        while X.shape[1] > 1:
            h = X.shape[1] // 2
            a, b_ = X[:, 0 : 2 * h : 2], X[:, 1 : 2 * h : 2]
            la = lX[:, 0 : 2 * h : 2] + lX[:, 1 : 2 * h : 2]
            ab_abs = np.einsum("bkij,bkjl->bkil", np.abs(a), np.abs(b_))
            s0 = np.array(starts[0 : 2 * h : 2])
            s2 = np.array(starts[2 : 2 * h + 1 : 2])
            loc = np.einsum("kbi,bkij,kbj->kb", np.abs(p[s0]), ab_abs, np.abs(q[s2]))
            with np.errstate(over="ignore"):
                terms = terms + (loc * np.exp(np.minimum(lp[s0] + la.T + lq[s2] - e, 600))).sum(0)
            pr = np.einsum("bkij,bkjl->bkil", a, b_)
            s = np.abs(pr).max(axis=(2, 3), keepdims=True)
            s = np.where(s == 0, 1.0, s)
            X = np.concatenate([pr / s, X[:, 2 * h :]], 1)
            lX = np.concatenate([la + np.log(s[..., 0, 0]), lX[:, 2 * h :]], 1)
            starts = starts[0 : 2 * h + 1 : 2] + starts[2 * h + 1 :]
        self.err = safety * (gam * terms + tiny * D * lost.sum(0) + 4 * (n + 2) * eps * np.abs(self.m))
        part = np.abs(lp).sum(0) + np.abs(lq).sum(0) + (np.log(D) + 3) * (n + 1)
        part = part + (np.abs(logm).sum(1) if n else 0) * (np.log2(n + 1) + 1)
        self.logerr = safety * eps * part

    @property
    def logabs(self):
        with np.errstate(divide="ignore"):
            return np.log(np.abs(self.m)) + self.e

    @property
    def rel(self):
        with np.errstate(divide="ignore", invalid="ignore"):
            return np.where(self.m == 0, np.inf, self.err / np.abs(self.m))

    def value(self):
        with np.errstate(over="ignore"):
            return self.m * np.exp(self.e)

    def abserr(self):
        with np.errstate(over="ignore", invalid="ignore"):
            a = (self.err + np.abs(self.m) * np.minimum(self.logerr, 1)) * np.exp(self.e)
        return a


def log_norm(cores, L, R, eps, lamb=None, lamb_err=None, safety=4.0):
    """ln sum |amplitude|^2 (weighted by lamb) for cores (n, d, D, D) and the bound of its error."""
    cores = np.asarray(cores)
    n, d, D, _ = cores.shape
    if lamb is None:
        lamb = np.eye(d)
    lamb = np.asarray(lamb)
    if lamb.ndim == 0:
        lamb = lamb * np.eye(d)
    elif lamb.ndim == 1:
        lamb = np.diag(lamb)
    labs = np.abs(lamb)
    lerr = np.zeros((d, d)) if lamb_err is None else lamb_err
    ls = labs.max() or 1.0
    la, labs, lerr = lamb / ls, labs / ls, lerr / ls
    lls = np.log(ls)

    sL, sR = np.abs(L).max() or 1.0, np.abs(R).max() or 1.0
    Ln, Rn = L / sL, R / sR
    cs = np.abs(cores).max(axis=(1, 2, 3), keepdims=True) if n else np.ones((0, 1, 1, 1))
    cs = np.where(cs == 0, 1.0, cs)
    cc = cores / cs
    lc = 2 * np.log(cs[:, 0, 0, 0])

    def fwd(dm, c, lam):
        w = np.einsum("ij,ilr->jlr", lam, c)
        return np.einsum("jlr,lp,jpq->rq", w, dm, c.conj(), optimize=True)

    def bwd(sm, c, lam):
        w = np.einsum("ij,ilr->jlr", lam, c)
        return np.einsum("jlr,rq,jpq->lp", w, sm, c.conj(), optimize=True)

    P, lP = [np.outer(Ln, Ln.conj())], [2 * np.log(sL)]
    for k in range(n):
        x = fwd(P[-1], cc[k], la)
        s = np.abs(x).max() or 1.0
        P.append(x / s)
        lP.append(lP[-1] + np.log(s) + lc[k] + lls)
    S, lS = [np.outer(Rn, Rn.conj())], [2 * np.log(sR)]
    for k in range(n - 1, -1, -1):
        x = bwd(S[-1], cc[k], la)
        s = np.abs(x).max() or 1.0
        S.append(x / s)
        lS.append(lS[-1] + np.log(s) + lc[k] + lls)
    S, lS = S[::-1], lS[::-1]
    # Z = sum_rq P[k]_rq S[k]_rq
    Z = np.einsum("rq,rq->", P[n], S[n]).real
    with np.errstate(divide="ignore"):
        logZ = np.log(max(Z, 0.0)) + lP[n] + lS[n]
    rel = 0.0
    gam = (2 * D + d * 2 + 10) * eps
    # entries of the density matrices below `tiny` are lost next to larger ones
    tiny = 1.2e-38 if eps > 1e-10 else 2.3e-308
    nz = (cores != 0).any(1) if n else np.zeros((0, D, D), bool)
    sp = [np.outer(np.asarray(L) != 0, np.asarray(L) != 0)]
    sq = [np.outer(np.asarray(R) != 0, np.asarray(R) != 0)]
    for k in range(n):
        sp.append(nz[k].T @ sp[-1] @ nz[k])
        sq.append(nz[n - 1 - k] @ sq[-1] @ nz[n - 1 - k].T)
    sq = sq[::-1]
    with np.errstate(over="ignore", invalid="ignore", divide="ignore"):
        for k in range(n + 1):
            rel += tiny * D * D * np.abs(S[k][sp[k] & sq[k]]).sum() * np.exp(min(lP[k] + lS[k] - logZ, 600))
    for k in range(n):
        a = np.abs(cc[k])
        loc = np.einsum("ij,ilr,lp,jpq,rq->", gam * labs + lerr, a, np.abs(P[k]), a, np.abs(S[k + 1]), optimize=True)
        with np.errstate(divide="ignore", over="ignore", invalid="ignore"):
            rel += loc * np.exp(lP[k] + lc[k] + lls + lS[k + 1] - logZ)
    with np.errstate(divide="ignore", over="ignore", invalid="ignore"):
        rel += gam * np.einsum("rq,rq->", np.abs(P[n]), np.abs(S[n])) / Z if Z > 0 else np.inf
        rel += gam * np.einsum("rq,rq->", np.abs(P[0]), np.abs(S[0])) * np.exp(lP[0] + lS[0] - logZ)
    part = np.abs(lP).sum() + (n + 2) * 4 + abs(2 * np.log(sL)) + abs(2 * np.log(sR)) + np.abs(lc).sum()
    return logZ, safety * (rel + 4 * (n + 2) * eps + eps * part)


def amplitudes_all(cores, L, R):
    """All amplitudes of (n, d, D, D) cores, as an array of shape (d,)*n (plain float64)."""
    v = np.asarray(L)[None]
    n, d = cores.shape[:2]
    for c in cores:
        v = np.einsum("xl,ilr->xir", v, c).reshape(-1, c.shape[-1])
    return (v @ np.asarray(R)).reshape((d,) * n)


def close(got, want, tol, what, **kw):
    """Elementwise |got - want| <= tol, NaN never passes."""
    from rtm.core import fail

    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        fail(f"{what}: wrong shape", got=got.shape, want=want.shape, **kw)
    tol = np.broadcast_to(np.asarray(tol, dtype=float), want.shape)
    with np.errstate(invalid="ignore"):
        same = (got == want)
        bad = ~(same | (np.abs(got - want) <= tol))
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        fail(f"{what}: differs from the reference", at=i, got=got[i].item(), want=want[i].item(),
             tol=float(tol[i]), bad=f"{int(bad.sum())}/{bad.size}", **kw)
