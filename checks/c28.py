"""C28: get_mat_slices and slim_eval_fun against the cores, symbols and weights themselves."""
import numpy as np
import torch

from rtm import gen as G
from rtm import mon, refs
from rtm.core import Skip, fail, need

CASES = {"quick": 6000, "thorough": 150000}
RULE = ("random cores (shared or per site, rectangular bonds for the slices, real or complex, single or double, "
        "extreme magnitudes, strided) and inputs (symbols of all integer types, real, complex, one-hot, sparse weights, "
        "of other precisions, 0-40 positions, 0-6 rows, transposed layouts): every slice must equal the core's (bitwise "
        "for symbols) and every slim amplitude times its scale the ordered product within a running error bound; batches "
        "of one, permuted batches, split sequences, unconjugated boundary vectors and gradients must agree; malformed "
        "shapes are refused; non-trivial with at least two positions")
MIN = {"amplitudes": 69680, "exact_slices": 30963, "onehot_symbols": 172, "refused": 5114, "refused_vectors": 2658,
       "slice_gradients": 553, "slim_calls": 10190, "weighted_slices": 50132, "with_contraction": 467}
CD = {torch.float32: torch.complex64, torch.float64: torch.complex128}


def gen(rng, tier, idx):
    c = gen1(rng)
    if idx % 16 == 9:
        # large alphabets
        c.update(d=G.pick(rng, [200, 257, 300, 700]), D=G.ri(rng, 1, 3), D2=G.ri(rng, 1, 3), n=min(c["n"], 6))
    if idx % 16 == 3:
        c.update({G.pick(rng, ["B", "D", "n"]): G.pick(rng, [33, 65, 130, 310, 600])})
        c["D"], c["D2"] = min(c["D"], 65), min(c["D2"], 20)
        if c["D"] > 5 or c["B"] > 6:
            c["n"] = max(1, min(c["n"], 4))
    return c


def gen1(rng):
    return {"n": G.pick(rng, [0, 1, 2, 3, G.ri(rng, 0, 8), G.ri(rng, 0, 40)]), "B": G.pick(rng, [0, 1, 1, 2, 3, 6]),
            "d": G.ri(rng, 1, 5), "D": G.ri(rng, 1, 5), "D2": G.ri(rng, 1, 5), "rect": bool(rng.random() < 0.25),
            "uniform": bool(rng.random() < 0.5), "cplx": bool(rng.random() < 0.5), "dt": G.pick(rng, ["f32", "f64"]),
            "inp": G.pick(rng, ["sym", "sym", "sym32", "sym16", "vec", "vec", "cvec", "onehot", "othervec", "sparse"]),
            "dist": G.pick(rng, ["normal", "sparse", "eye", "scaled", "scaled"]), "seed": G.rs(rng),
            "layout": G.pick(rng, ["plain", "plain", "seqfirst", "strided"]), "grad": bool(rng.random() < 0.3)}


def run(c, obs):
    from torchmps import mps_base as M

    rng = np.random.default_rng(c["seed"])
    n, B, d, D = c["n"], c["B"], c["d"], c["D"]
    E = c["D2"] if c["rect"] else D
    fdt = G.F[c["dt"]]
    dt = CD[fdt] if c["cplx"] else fdt
    eps = refs.eps_of(fdt)
    shape = (d, D, E) if c["uniform"] else (n, d, D, E)

    def rnd(*sh, cp=c["cplx"]):
        v = rng.normal(size=sh)
        return v + 1j * rng.normal(size=sh) if cp else v

    v = rnd(*shape) / np.sqrt(D)
    if c["dist"] == "sparse":
        v = v * (rng.random(shape) < 0.6)
    elif c["dist"] == "eye":
        v = 0.2 * v + np.eye(D, E)
    elif c["dist"] == "scaled":
        v = v * 10.0 ** rng.uniform(-15, 15)
    core = torch.tensor(v).to(dt)
    if c["layout"] == "strided":
        core = core.transpose(-1, -2).contiguous().transpose(-1, -2)
    core.requires_grad_(c["grad"])
    cw = refs.wide(core)
    full = np.broadcast_to(cw, (n,) + cw.shape) if c["uniform"] else cw
    sym = c["inp"].startswith("sym")
    if sym:
        x = rng.integers(0, d, size=(B, n))
        t = torch.tensor(x, dtype={"sym": torch.int64, "sym32": torch.int32, "sym16": torch.int64}[c["inp"]])
        w = np.eye(d)[x]
    else:
        w = rng.normal(size=(B, n, d))
        if c["inp"] == "onehot":
            w = np.eye(d)[rng.integers(0, d, size=(B, n))]
        elif c["inp"] == "sparse":
            w = w * (rng.random((B, n, d)) < 0.5)
        if c["inp"] == "cvec" and c["cplx"]:
            t = torch.tensor(w + 1j * rng.normal(size=w.shape)).to(dt)
        elif c["inp"] == "othervec":
            t = torch.tensor(w).to(torch.float64 if fdt == torch.float32 else torch.float32)
        else:
            t = torch.tensor(w).to(fdt)
        w = refs.wide(t.to(dt) if c["inp"] == "othervec" else t)
    if c["layout"] == "seqfirst":
        t = t.transpose(0, 1).contiguous().transpose(0, 1)
    keep = mon.bits(core), mon.bits(t)

    # ---------------- slices
    out = M.get_mat_slices(t, core)
    need(isinstance(out, torch.Tensor) and tuple(out.shape) == (B, n, D, E), "wrong shape of the slices",
         got=tuple(out.shape), want=(B, n, D, E))
    need(out.dtype == dt, "slices of another type", got=str(out.dtype), want=str(dt))
    g = refs.wide(out)
    if sym:
        want = full[np.arange(n)[None], x] if n else g
        need(np.array_equal(g, want), "slice of another symbol or position")
        obs.hit("exact_slices", B * n)
    else:
        want = np.einsum("bti,tilr->btlr", w, full)
        tol = (d + 4) * 4 * eps * np.einsum("bti,tilr->btlr", np.abs(w), np.abs(full)) + 1e-42
        refs.close(g, want, tol, "weighted slice")
        obs.hit("weighted_slices", B * n)
        if c["inp"] == "onehot" and B * n:
            idx = w.argmax(-1)
            s2 = refs.wide(M.get_mat_slices(torch.tensor(idx), core))
            refs.close(g, s2, 4 * eps * np.abs(s2), "one-hot weights and symbols differ")
            obs.hit("onehot_symbols")
    if B:
        k = int(rng.integers(B))
        one = refs.wide(M.get_mat_slices(t[k: k + 1], core))[0]
        if sym:
            need(np.array_equal(one, g[k]), "slices depend on the batch")
        else:
            refs.close(one, g[k], tol[k], "slices depend on the batch")
    if c["grad"] and B and n:
        wt = torch.tensor(rnd(B, n, D, E)).to(dt)
        z = (out * wt).sum()
        z = z.real if z.is_complex() else z
        gr = refs.wide(torch.autograd.grad(z, core)[0])
        gw = np.einsum("bti,btlr->tilr", w.conj(), refs.wide(wt).conj())
        ga = np.einsum("bti,btlr->tilr", np.abs(w), np.abs(refs.wide(wt)))
        if c["uniform"]:
            gw, ga = gw.sum(0), ga.sum(0)
        refs.close(gr, gw, (B * n + 8) * 8 * eps * ga + 1e-42, "gradient of the slices")
        obs.hit("slice_gradients")
    obs.state(c["inp"], c["uniform"], c["cplx"], c["dt"], min(n, 5), min(B, 3), d, D, E)
    if n > 1:
        obs.nontrivial(c["seed"])

    # ---------------- slim amplitudes
    if D == E:
        sc = 10.0 ** rng.uniform(-8, 8) if c["dist"] == "scaled" else 1.0
        edge = torch.tensor(rnd(2, D) * sc).to(dt)
        if rng.random() < 0.2:
            edge[0, int(rng.integers(D))] = 0
        ew = refs.wide(edge)
        ch = refs.Chain(want if B else np.zeros((0, n, D, D)), ew[0], ew[1], eps,
                        np.einsum("bti,tilr->btlr", np.abs(w), np.abs(full)), inner=d + 2, safety=6.0)

        def slim(tt, cc=core, ee=edge):
            res = M.slim_eval_fun(tt, cc, ee)
            need(isinstance(res, tuple) and len(res) == 2, "no pair returned")
            a, s = res
            need(tuple(a.shape) == tuple(s.shape) == (tt.shape[0],), "wrong shape of the amplitudes", got=tuple(a.shape))
            need(a.dtype == dt, "amplitudes of another type", got=str(a.dtype), want=str(dt))
            need(not s.is_complex(), "complex log scale")
            obs.hit("slim_calls")
            return a, s

        def against(a, s, ch, what, extra=1.0):
            aw, sw = refs.wide(a), refs.wide(s)
            need(np.isfinite(sw).all() and np.isfinite(aw).all(), f"{what}: not finite")
            with np.errstate(over="ignore", invalid="ignore"):
                got = aw * np.exp(sw - ch.e)
                tol = extra * (ch.err + np.abs(ch.m) * np.minimum(ch.logerr + 4 * eps * np.abs(sw) * (n + 2), 1))
            # products so much smaller than their parts that only the bound matters
            ok = np.isfinite(tol) & np.isfinite(got)
            need(ok.all() or not (ch.rel < 0.5)[~ok].any(), f"{what}: overflow of a determined amplitude")
            refs.close(got[ok], ch.m[ok], tol[ok] + 1e-300, what)
            obs.hit("amplitudes", int(((ch.rel < 0.5) & ok).sum()))
            if ok.any():
                obs.high("worst_error/tolerance", np.max(np.abs(got - ch.m)[ok] / (tol[ok] + 1e-300)))

        a, s = slim(t)
        against(a, s, ch, "slim amplitude")
        if B > 1:
            p = torch.tensor(rng.permutation(B))
            a2, s2 = slim(t[p])
            sub = _pick(ch, p.numpy())
            against(a2, s2, sub, "slim amplitude of a permuted batch")
        if B:
            k = int(rng.integers(B))
            a2, s2 = slim(t[k: k + 1])
            against(a2, s2, _pick(ch, [k]), "slim amplitude of a single row")
        # the boundary vectors are used as given, linearly
        ph = np.exp(1j * 1.1) if c["cplx"] else -3.0
        i = int(rng.integers(2))
        e2 = edge.clone()
        e2[i] = e2[i] * ph
        a2, s2 = slim(t, ee=e2)
        against(a2 / ph, s2, ch, "boundary vector is not used linearly", 2.0)
        # reversed chain with swapped vectors
        rev = core.transpose(-1, -2) if c["uniform"] else core.transpose(-1, -2).flip(0)
        a2, s2 = slim(t.flip(1), cc=rev, ee=edge.flip(0))
        against(a2, s2, ch, "reversed chain")
        # shared cores: sequence given as stack
        if c["uniform"] and n:
            a2, s2 = slim(t, cc=core.expand((n,) + tuple(core.shape)))
            against(a2, s2, ch, "stacked cores")
        if B and n and rng.random() < 0.3:
            # against the full evaluation of the library's own slices
            r, ls = M.contract_matseq(out, edge[0], edge[1], bool(rng.random() < 0.5), log_format=True)
            against(r, ls, ch, "contraction of the slices", 4.0)
            obs.hit("with_contraction")
    # ---------------- malformed
    if rng.random() < 0.3:
        bad = []
        if not c["uniform"]:
            bad.append((torch.cat([t, t[:, :1]], 1) if n else torch.zeros((max(B, 1), 1) + tuple(t.shape[2:]), dtype=t.dtype), core))
        if not sym:
            e = d + 1 if rng.random() < 0.5 or d == 1 else 1
            bad.append((torch.ones(B, n, e, dtype=t.dtype), core))
        bad.append((t[..., None, None], core))
        bad.append((t, core[0] if c["uniform"] else core[None]))
        if sym and B and n:
            y = t.clone()
            y[int(rng.integers(B)), int(rng.integers(n))] = d + int(rng.integers(0, 3))
            bad.append((y, core))
        fns = [lambda a, b: M.get_mat_slices(a, b)]
        if D == E:
            fns.append(lambda a, b: M.slim_eval_fun(a, b, edge))
            for e2 in (edge[0], edge[:1], edge[:, :-1] if D > 1 else torch.ones(2, 2, dtype=dt), torch.ones(3, D, dtype=dt)):
                try:
                    M.slim_eval_fun(t, core, e2)
                except Exception:
                    obs.hit("refused_vectors")
                else:
                    fail("malformed boundary vectors accepted", shape=tuple(e2.shape))
        for a, b in bad:
            for f in fns:
                try:
                    f(a, b)
                except Exception:
                    obs.hit("refused")
                else:
                    fail("malformed input accepted", input=tuple(a.shape), core=tuple(b.shape), d=d, n=n)
    need((mon.bits(core), mon.bits(t)) == keep, "arguments changed")


def _pick(ch, idx):
    import copy

    out = copy.copy(ch)
    for k in ("e", "m", "err", "logerr"):
        setattr(out, k, getattr(ch, k)[idx])
    return out
