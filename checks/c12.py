"""C12: merge-state changes happen on schedule; bond_list and sv_list report them exactly."""
import numpy as np
import torch

from checks.c11 import best, unfold
from rtm import gen as G
from rtm import refs
from rtm.core import fail, need

CASES = {"quick": 1200, "thorough": 12000}
RULE = ("random adaptive MPS driven through histories of 6-40 calls (batches from 0 to several times the threshold, "
        "training, overwriting, gradient modes, train/eval switches, deep copies in between); an online monitor keeps "
        "the schedule (one change at most per call, exactly when inputs fed minus threshold times changes reach the "
        "threshold) and the expected bond and singular-value lists from NumPy SVDs of the merged cores before each "
        "change, and measures the rank across every unmerged bond after every call; non-trivial if changes happened "
        "and calls without a due change too")
MIN = {"backlog_changes": 2346, "bonds_exact": 8376, "bonds_reported": 8506, "calls": 6822,
       "calls_without_change": 2153, "changes": 4669, "full_rounds": 4145, "inference_calls": 1098,
       "ranks_measured": 11293, "ranks_truncated": 761}


def gen(rng, tier, idx):
    s = G.mps_spec(rng, adaptive=True, nmax=8, Dmax=5, omax=4, dmax=3)
    s["cutoff"] = G.pick(rng, [0.0, 1e-10, 1e-6, 1e-3, 0.05, 0.3])
    s["thresh"] = G.pick(rng, [0, 1, 2, 3, 5, 7, 12])
    if idx % 20 == 13:
        # one large axis
        big = G.pick(rng, ["n", "D", "o", "d"])
        s.update(path=None, n=G.ri(rng, 1, 4), D=G.ri(rng, 1, 3), o=G.ri(rng, 1, 3), d=2)
        s.pop("width", None)
        s[big] = {"n": G.ri(rng, 10, 40), "D": G.ri(rng, 8, 24), "o": G.ri(rng, 8, 40), "d": G.ri(rng, 5, 10)}[big]
        s["label"] = G.pick(rng, [None, 0, s["n"], G.ri(rng, 0, s["n"])])
        if big == "n":
            s["dtype"] = "f64"  # outputs can exceed the range of single precision
    s["dist"] = G.pick(rng, ["init", "normal", "normal", "eye", "sparse"])
    if rng.random() < 0.3:
        s["init_std"] = G.pick(rng, [1e-2, 0.3])
    k = G.ri(rng, 6, 40 if tier == "thorough" else 20)
    return {"spec": s, "seed": G.rs(rng), "calls": k, "batches": G.pick(rng, [[1], [1, 2, 3], [0, 1, 5], [4, 9, 30], [7]]),
            "between": G.pick(rng, ["none", "sgd", "sgd", "adam", "wd", "set"])}


def bonds_of(nodes):
    """[(node index, slot, bond index inside the merged core)], boundaries between consecutive cores, per chain order"""
    merged, split, c = [], [], 0
    flat = []  # (tensor, width in cores)
    for k, t, extra in nodes:
        if k == "region":
            flat += [("site", t[j], extra, 1) for j in range(t.shape[0])]
        elif k == "merged":
            flat += [("merged", t[j], extra, 2) for j in range(t.shape[0])]
        else:
            flat.append((k, t, extra, 2 if k == "mout" else 1))
    pos = 0
    for i, (k, t, e, wd) in enumerate(flat):
        if wd == 2:
            merged.append((pos + 1, i))
        if pos:
            split.append((pos, i - 1, i))
        pos += wd
    return flat, merged, split, pos


def mat_left(k, t):
    """core as matrix (rest, right bond)"""
    t = refs.wide(t)
    ax = {"site": 1, "merged": 1, "out": 2, "mout": 2}[k]
    t = np.moveaxis(t, ax, -1)
    return t.reshape(-1, t.shape[-1])


def mat_right(k, t):
    t = refs.wide(t)
    ax = {"site": 0, "merged": 0, "out": 1, "mout": 1}[k]
    t = np.moveaxis(t, ax, 0)
    return t.reshape(t.shape[0], -1)


def rank_excess(a, b, r, eps):
    """Is the rank of a @ b more than r?  (relative size of the offending singular value)"""
    ra = np.linalg.qr(a, mode="r") if min(a.shape) else a
    lb = np.linalg.qr(b.conj().T, mode="r").conj().T if min(b.shape) else b
    s = np.linalg.svd(ra @ lb, compute_uv=False)
    if len(s) <= r or s[0] == 0:
        return 0.0, int((s > 1e-6 * (s[0] if len(s) else 0)).sum())
    scale = np.linalg.norm(a) * np.linalg.norm(b)
    return s[r] / scale / (50 * eps), int((s > 1e-6 * s[0]).sum())


def run(case, obs):
    s = case["spec"]
    rng = np.random.default_rng(case["seed"])
    eps = G.eps_s(s)
    model = G.build_mps(s)
    n, D = s["n"], s["D"]
    opt = {"sgd": lambda: torch.optim.SGD(model.parameters(), lr=0.05),
           "wd": lambda: torch.optim.SGD(model.parameters(), lr=0.05, weight_decay=0.1),
           "adam": lambda: torch.optim.Adam(model.parameters(), lr=0.02)}.get(case["between"], lambda: None)()
    want_b = np.full(n + 2, D)
    if not s["pbc"]:
        want_b[0] = want_b[-1] = 1
    fed = changes = quiet = 0
    visited = None

    def lists():
        b, v = model.bond_list, model.sv_list
        need(len(b) == n + 2 and len(v) == n + 2, "bond_list/sv_list have the wrong length", n=n, got=(len(b), len(v)))
        return [int(x) for x in b], [np.asarray(torch.as_tensor(x).detach().double()).reshape(-1) for x in v]

    b, v = lists()
    need(b == list(want_b), "initial bond_list", got=b)
    need(all((x == -1).all() and len(x) == D for x in v), "initial sv_list", got=v)
    for step in range(case["calls"]):
        batch = G.pick(rng, case["batches"])
        t, w = G.mps_input(s, rng, batch)
        old_nodes = [(k, c.detach().clone(), e) for k, c, e in G.net_nodes(model)]
        old_ids = [id(c) for _, c, _ in G.net_nodes(model)]
        bb, vb = lists()
        due = fed - s["thresh"] * changes >= s["thresh"]
        flat, merged, _, total = bonds_of(old_nodes)
        need(total == n + 1, "number of cores in the chain", got=total, n=n)
        facts = {p: best(unfold((k, c[None] if k == "merged" else c, e))[0], s["cutoff"], D, eps)
                 for p, i in merged for k, c, e, _ in [flat[i]]}
        grad = bool(rng.random() < 0.6)
        infer = not grad and bool(rng.random() < 0.4)
        obs.hit("inference_calls", int(infer))
        try:
            with torch.inference_mode() if infer else torch.set_grad_enabled(grad):
                out = model(t)
        except RuntimeError as e:
            if due and "cutoff" in str(e) and any(f[1] == 0 or not f[3] for f in facts.values()):
                obs.hit("everything_truncated")
                return
            raise
        obs.hit("calls")
        changed = [id(c) for _, c, _ in G.net_nodes(model)] != old_ids
        need(changed == due, "merge state changed off schedule", changed=changed, fed=fed, changes=changes,
             threshold=s["thresh"], batch=batch)
        fed += batch
        ab, av = lists()
        if not due:
            quiet += 1
            obs.hit("calls_without_change")
            need(ab == bb and all((x == y).all() for x, y in zip(av, vb)), "lists changed without a merge-state change")
        else:
            changes += 1
            obs.hit("changes")
            if visited is not None:
                need(sorted(visited + list(facts)) == list(range(1, n + 1)),
                     "two consecutive changes do not update every bond exactly once", first=visited, second=list(facts))
                obs.hit("full_rounds")
            visited = list(facts)
            obs.hit("backlog_changes", int(fed - batch - s["thresh"] * changes >= s["thresh"] > 0))
            for p in range(n + 2):
                if p not in facts:
                    need(ab[p] == bb[p] and (av[p] == vb[p]).all(), "entry of a bond that was not split changed", bond=p,
                         before=(bb[p], vb[p]), after=(ab[p], av[p]))
                    continue
                _, keep, _, ok, sv, _ = facts[p]
                sig = np.zeros(D)
                sig[: min(D, len(sv))] = sv[:D]
                tol = (50 * eps + 2.0**-23) * sv[0] + 1e-37
                need(len(av[p]) == D, "length of a singular-value entry")
                need((np.abs(av[p] - sig) <= tol).all(), "reported singular values", bond=p, got=av[p], want=sig)
                need((np.diff(av[p]) <= tol).all(), "singular values not in descending order", got=av[p])
                noise = 50 * eps * sv[0]
                lo, hi = int((sv[:D] >= s["cutoff"] + noise).sum()), int((sv[:D] >= s["cutoff"] - noise).sum())
                need(lo <= ab[p] <= hi, "reported bond dimension", bond=p, got=ab[p], low=lo, high=hi,
                     cutoff=s["cutoff"], sv=sv[:D])
                obs.hit("bonds_reported")
                obs.hit("bonds_exact", int(lo == hi))
        # ranks across unmerged bonds
        flat, merged, split, total = bonds_of([(k, c.detach(), e) for k, c, e in G.net_nodes(model)])
        for p, i, j in split:
            if case["between"] == "adam" and not due:
                break  # momentum from before the last change may move along truncated directions
            ex, r = rank_excess(mat_left(*flat[i][:2]), mat_right(*flat[j][:2]), ab[p], eps)
            need(ex <= 1, "rank across a bond exceeds the reported bond dimension", bond=p, reported=ab[p], rank=r)
            obs.hit("ranks_measured")
            obs.hit("ranks_truncated", int(ab[p] < D))
        btw = case["between"]
        if opt is not None and grad and out.requires_grad and out.numel():
            opt.zero_grad()
            loss = (out - 1).pow(2).mean()
            if torch.isfinite(loss):
                loss.backward()
                torch.nn.utils.clip_grad_norm_(model.parameters(), 1.0)
                opt.step()
        elif btw == "set" and rng.random() < 0.3:
            # freely overwritten cores may have any rank up to D
            G.set_net_params(model, "normal", rng)
            flat = bonds_of([(k, c.detach(), e) for k, c, e in G.net_nodes(model)])[0]  # the tensors may be new ones
            with torch.no_grad():
                for p, i, j in split:
                    if ab[p] < D:
                        for k, c, side in ((flat[i][0], flat[i][1], "l"), (flat[j][0], flat[j][1], "r")):
                            ax = {"site": 1, "merged": 1, "out": 2, "mout": 2}[k] if side == "l" else {
                                "site": 0, "merged": 0, "out": 1, "mout": 1}[k]
                            c.narrow(ax, ab[p], D - ab[p]).zero_()
        if rng.random() < 0.1:
            model.train(not model.training)
    obs.state(*[str(s.get(k)) for k in ("n", "o", "D", "d", "pbc", "label", "cutoff", "thresh")], case["between"])
    if changes and (quiet or s["thresh"] <= 1):
        obs.nontrivial(case["seed"])
