"""C11: each re-merge of an adaptive MPS keeps the function up to the optimal truncation."""
import copy

import numpy as np
import torch

from rtm import gen as G
from rtm import refs
from rtm.core import Skip, fail, need

CASES = {"quick": 1050, "thorough": 15000}
RULE = ("random adaptive MPS (size, label site, open/periodic, D, d, o, cutoff from 0 to large, thresholds) run through "
        "2-8 merge-state changes with training or overwritten cores in between; before each change every merged core is "
        "replaced by its NumPy best approximation (cutoff and maximum bond dimension) and the network contracted: the "
        "model after the change must equal that, and equal the old function if nothing was discarded; a change is "
        "skipped by the oracle when a singular value is within 1% of the cutoff or degenerate at the maximum; "
        "non-trivial if at least two changes were decided")
MIN = {"changes": 3716, "changes_due": 3725, "changes_while_training": 1376, "everything_truncated": 47,
       "frozen_models": 163, "lossless": 3022, "rows": 23501, "truncating": 694, "uneven_models": 184}


def gen(rng, tier, idx):
    s = G.mps_spec(rng, adaptive=True, nmax=7, Dmax=5, omax=5, dmax=3)
    s["cutoff"] = G.pick(rng, [0.0, 1e-10, 1e-10, 1e-6, 1e-3, 0.05, 0.3])
    s["thresh"] = G.pick(rng, [1, 2, 4, 5])
    if idx % 20 == 13:
        # one large axis
        big = G.pick(rng, ["n", "D", "o", "d"])
        s.update(path=None, n=G.ri(rng, 1, 4), D=G.ri(rng, 1, 3), o=G.ri(rng, 1, 3), d=2)
        s.pop("width", None)
        s[big] = {"n": G.ri(rng, 10, 40), "D": G.ri(rng, 8, 24), "o": G.ri(rng, 8, 40), "d": G.ri(rng, 5, 10)}[big]
        s["label"] = G.pick(rng, [None, 0, s["n"], G.ri(rng, 0, s["n"])])
        if big == "n":
            s["dtype"] = "f64"  # outputs can exceed the range of single precision
    s["dist"] = G.pick(rng, ["init", "normal", "normal", "eye", "lowrank", "sparse"])
    if rng.random() < 0.3:
        s["init_std"] = G.pick(rng, [1e-9, 1e-2, 0.3])
    return {"spec": s, "seed": G.rs(rng), "rounds": G.ri(rng, 2, 8 if tier == "thorough" else 6),
            "uneven": G.pick(rng, [0, 0, 0, 3, 6]), "between": G.pick(rng, ["none", "none", "sgd", "adam", "set", "scale"]),
            "freeze": G.pick(rng, [0, 0, 0, 0, 0.5, 1])}


def split(kind, t):
    """matrix unfolding of a merged core, and the function putting it back"""
    if kind == "merged":  # lrij -> (l i) (r j)
        l, r, i, j = t.shape
        return t.transpose(0, 2, 1, 3).reshape(l * i, r * j), lambda m: m.reshape(l, i, r, j).transpose(0, 2, 1, 3)
    raise ValueError


def unfold(node):
    """list of matrices (one per merged core) whose spectra decide the split"""
    kind, t, extra = node
    t = refs.wide(t)
    if kind == "merged":
        n, l, r, i, j = t.shape
        return [t[k].transpose(0, 2, 1, 3).reshape(l * i, r * j) for k in range(n)]
    if kind == "mout":
        o, l, r, i = t.shape
        if extra:  # output core on the left: (o l) (r i)
            return [t.reshape(o * l, r * i)]
        return [t.transpose(0, 2, 1, 3).reshape(o * r, l * i)]
    return []


def fold(node, mats):
    kind, t, extra = node
    if kind == "merged":
        n, l, r, i, j = t.shape
        return np.stack([m.reshape(l, i, r, j).transpose(0, 2, 1, 3) for m in mats])
    o, l, r, i = t.shape
    if extra:
        return mats[0].reshape(o, l, r, i)
    return mats[0].reshape(o, r, l, i).transpose(0, 2, 1, 3)


def best(m, cutoff, D, eps):
    """(truncated matrix, kept number, discarded?, decided?, all singular values)"""
    u, s, vh = np.linalg.svd(m, full_matrices=False)
    noise = 50 * eps * (s[0] if len(s) else 0)
    top = s[:D]
    keep = int((top >= cutoff).sum())
    near = np.abs(top - cutoff) <= 0.01 * cutoff + noise
    ok = not near.any() if cutoff > noise else True
    if cutoff <= noise:  # only values at rounding level are in doubt, they do not matter
        ok = True
    if len(s) > D and s[D] > noise and s[D] > cutoff and (s[D - 1] - s[D]) <= 0.02 * s[D - 1]:
        ok = False
    lost = s[keep:].sum() if keep < len(s) else 0.0
    # sensitivity of the truncated projector
    gap = (s[keep - 1] - s[keep]) / s[0] if 0 < keep < len(s) else 1.0
    return (u[:, :keep] * s[:keep]) @ vh[:keep], keep, lost > 4 * noise, ok, s, gap


class Frozen:
    """Snapshot of the active nodes."""

    def __init__(self, model):
        self.nodes = [(k, t.detach().clone(), e) for k, t, e in G.net_nodes(model)]


def predict(nodes, s):
    """nodes with every merged core replaced; flags"""
    eps = G.eps_s(s)
    out, lossless, decided, mingap, empty = [], True, True, 1.0, False
    for node in nodes:
        mats = unfold(node)
        if not mats:
            out.append(node)
            continue
        new = []
        for m in mats:
            b, keep, lost, ok, sv, gap = best(m, s["cutoff"], s["D"], eps)
            new.append(b)
            lossless &= not lost
            decided &= ok
            empty |= keep == 0
            mingap = min(mingap, gap if lost else 1.0)
        out.append((node[0], torch.tensor(fold(node, new)), node[2]))
    return out, lossless, decided, mingap, empty


def tolerance(nodes, s, w, mingap):
    """Change of the network's absolute bound when every core is off by rounding relative to its norm."""
    eps = G.eps_s(s)
    fat, absn = [], []
    for k, t, e in nodes:
        a = t.abs().double()
        axes = tuple(range(1, a.ndim)) if k in ("region", "merged") else tuple(range(a.ndim))
        nrm = (a**2).sum(dim=axes, keepdim=True).sqrt()
        absn.append((k, a, e))
        fat.append((k, a + 60 * eps / max(mingap, 1e-6) * nrm, e))
    b1, _ = G.net_eval(fat, np.abs(w), s["pbc"], eps)
    b0, _ = G.net_eval(absn, np.abs(w), s["pbc"], eps)
    return b1 - b0


def run(case, obs):
    s = case["spec"]
    rng = np.random.default_rng(case["seed"])
    lowrank = s["dist"] == "lowrank"
    model = G.build_mps(dict(s, dist="normal" if lowrank else s["dist"]))
    if lowrank:
        with torch.no_grad():
            for p in model.parameters():
                if p.ndim >= 3:
                    p[..., s["D"] // 2 :, :] = 0 if p.ndim == 3 else p[..., s["D"] // 2 :, :]
                    if p.ndim == 5:
                        p[:, s["D"] // 2 :] = 0
                    if p.ndim == 4:
                        p[:, s["D"] // 2 :] = 0
    if case["uneven"]:  # cores of very different size
        with torch.no_grad():
            for k, c, e in G.net_nodes(model):
                c.mul_(10.0 ** rng.uniform(-case["uneven"], case["uneven"]))
        obs.hit("uneven_models")
    r = model.linear_region
    opt = {"sgd": lambda: torch.optim.SGD(model.parameters(), lr=0.02),
           "adam": lambda: torch.optim.Adam(model.parameters(), lr=0.02)}.get(case["between"], lambda: None)()
    if case.get("freeze"):
        # frozen parameters keep describing the same function, so changes write them too
        for p in model.parameters():
            if rng.random() < case["freeze"]:
                p.requires_grad_(False)
        obs.hit("frozen_models")
    fed = decided = 0
    for _ in range(case["rounds"] * 3):
        batch = G.pick(rng, [1, 2, 4])
        t, w = G.mps_input(s, rng, batch)
        old = Frozen(model).nodes
        old_state = r.offset
        pred, lossless, ok, gap, empty = predict(old, s)
        due = fed >= s["thresh"]
        try:
            with torch.set_grad_enabled(bool(rng.random() < 0.5)):
                out = model(t)
        except RuntimeError as e:
            if due and (empty or not ok) and "cutoff" in str(e):
                obs.hit("everything_truncated")
                return
            raise
        fed += batch
        if due:
            fed -= s["thresh"]
            need(r.offset != old_state, "merge state did not change when due")
            obs.hit("changes_due")
            new = Frozen(model).nodes
            for k, c, e in new:
                need(bool(torch.isfinite(c).all()), "core is not finite after a change of the merge state")
            # function of the new cores as read
            w2 = np.concatenate([w, np.random.default_rng(1).normal(size=(4,) + w.shape[1:])])
            got, err = G.net_eval(new, w2, s["pbc"], G.eps_s(s))
            if ok and not empty:
                want, err2 = G.net_eval(pred, w2, s["pbc"], G.eps_s(s))
                tol = err + err2 + tolerance(old, s, w2, gap)
                refs.close(got, want, tol, "function after the change", lossless=lossless, offset=r.offset)
                obs.hit("changes")
                obs.hit("rows", len(w2))
                obs.hit("lossless" if lossless else "truncating")
                obs.hit("changes_while_training", int(opt is not None))
                decided += 1
                obs.high("relative tolerance", np.median(tol / (np.abs(want).max() + 1e-30)))
                if lossless:
                    want0, err0 = G.net_eval(old, w2, s["pbc"], G.eps_s(s))
                    refs.close(got, want0, tol + err0, "function changed although nothing was discarded")
            else:
                obs.hit("undecidable_truncation")
        ref, err = G.mps_ref(model, s, w)
        G.check_out(out, ref, err, "output of the call")
        b = case["between"]
        if b in ("sgd", "adam"):
            opt.zero_grad()
            keep = r.input_counter
            o2 = model(t) if fed < s["thresh"] else None
            if o2 is not None:
                fed += batch
                loss = (o2 - 1).pow(2).mean()
                if torch.isfinite(loss) and loss.requires_grad:
                    loss.backward()
                    torch.nn.utils.clip_grad_norm_(model.parameters(), 1.0)
                    opt.step()
        elif b == "set" and rng.random() < 0.5:
            G.set_net_params(model, "normal", rng)
        elif b == "scale" and rng.random() < 0.4:
            with torch.no_grad():
                for k, c, e in G.net_nodes(model):
                    c.mul_(10.0 ** rng.uniform(-1, 1))
    obs.state(*[str(s.get(k)) for k in ("n", "o", "D", "d", "pbc", "label", "cutoff", "thresh", "dist")], case["between"])
    if decided >= 2:
        obs.nontrivial(case["seed"])
