"""C09: outputs of rows do not depend on other rows, batch sizes, order, or call history."""
import numpy as np
import torch

from rtm import gen as G
from rtm import refs
from rtm.core import Skip, fail, need

CASES = {"quick": 1200, "thorough": 15000}
RULE = ("a pool of 2-4 models (probabilistic, MPS with every label site including the ends, adaptive MPS, TI_MPS) and a "
        "random history of interleaved calls with changing batch sizes 1..9 (occasionally 33..2100), permuted and repeated rows, "
        "options, and raw contractable products; each row is compared with a per-row reference and with the same row "
        "in other batches; non-trivial if at least three calls on two models were decided")
MIN = {"calls": 5454, "repeated_rows": 89963, "rows": 103412, "rows_beside_vanishing": 1368, "single_rows": 1371,
       "spread_rows": 5000}


def gen(rng, tier, idx):
    specs = []
    for k in range(G.ri(rng, 2, 4)):
        kind = G.pick(rng, ["prob", "mps", "mps", "ti"])
        if kind == "prob":
            s = G.prob_spec(rng, dist="normal")
            s["inp"] = G.pick(rng, ["sym", "vec"])
            if rng.random() < 0.3:
                # rows whose amplitudes differ by more than the range of the number type
                s.update(emb=None, bias=False, d=G.ri(rng, 2, 4), D=G.ri(rng, 1, 3), n=G.ri(rng, 25, 50), spread=True)
            elif rng.random() < 0.35 and not s["bias"]:
                # rows whose amplitude vanishes somewhere on the way
                s.update(emb=None, d=G.ri(rng, 2, 4), n=G.ri(rng, 2, 7), vanish=True)
        elif kind == "mps":
            s = G.mps_spec(rng)
            if rng.random() < 0.4:
                s["label"] = G.pick(rng, [0, s["n"]])
            s["thresh"] = G.pick(rng, [10**6, 10**6, 7])
        else:
            s = G.ti_spec(rng)
            s["n"] = G.ri(rng, 0, 6)
        if k == 0 and idx % 10 == 3 and not s.get("spread") and not s.get("vanish"):
            G.enlarge(s, rng, axes=("D", "d", "n", "o"), budget=3e5)
        specs.append(s)
    return {"specs": specs, "seed": G.rs(rng), "calls": G.ri(rng, 6, 14)}


class One:
    """A model with a fixed set of rows and their references."""

    def __init__(self, s, rng):
        self.s = s
        R = 6
        if s["kind"] in ("fixed", "unif"):
            self.model, self.emb = G.build_prob(s)
            self.t, self.w = G.prob_input(s, rng, R, self.emb)
            if s.get("spread"):
                self.spread(s, rng)
            if s.get("vanish"):
                self.vanish(s, rng)
        elif s["kind"] == "mps":
            self.model = G.build_mps(s)
            self.t, self.w = G.mps_input({**s, "rows_differ": True}, rng, R)
        else:
            self.model = G.build_ti(s)
            self.t = torch.tensor(rng.normal(size=(R, s["n"], s["d"]))).to(G.F[s["dtype"]])
            self.w = refs.wide(self.t)
            if s["d"] == 2 and rng.random() < 0.4:
                self.t = self.t[:, :, 0].clone()
                xw = refs.wide(self.t)
                self.w = np.stack([xw, 1 - xw], -1)
        self.seen = {}

    def spread(self, s, rng):
        k = rng.permutation(s["d"]) * (2.0 if s["d"] < 3 else 1.0) - 1.0
        if s["inp"] == "sym":
            with torch.no_grad():
                c = self.model.core_tensors
                c *= torch.tensor(10.0 ** k).to(c.dtype)[:, None, None]
            for j in range(0, len(self.t), 2):
                self.t[j] = int(rng.integers(s["d"]))
            self.w = np.eye(s["d"])[self.t.numpy()]
        else:
            for j in range(len(self.t)):
                self.t[j] *= 10.0 ** rng.uniform(-1, 1)
            self.w = refs.wide(self.t)

    def vanish(self, s, rng):
        if s["inp"] == "sym":
            z = int(rng.integers(s["d"]))
            with torch.no_grad():
                c = self.model.core_tensors
                if s["kind"] == "fixed":
                    c[int(rng.integers(s["n"])), z] = 0
                else:
                    c[z] = 0
            # some rows without the vanishing symbol
            for j in range(0, len(self.t), 2):
                self.t[j][self.t[j] == z] = (z + 1) % s["d"]
            self.w = np.eye(s["d"])[self.t.numpy()]
        else:
            for j in range(0, len(self.t), 2):
                self.t[j, int(rng.integers(s["n"]))] = 0
            self.w = refs.wide(self.t)

    def reference(self):
        s = self.s
        if s["kind"] == "mps":
            return G.mps_ref(self.model, s, self.w)
        if s["kind"] == "ti":
            return G.ti_ref(self.model, s, self.w)
        ref = G.ProbRef(self.model, s, self.emb)
        if not ref.usable:
            return None, None
        v, t, ch = ref.logp(self.t, self.w)
        t = np.where((ch.rel < 0.5) & np.isfinite(v), t, np.inf)
        return v, t

    def call(self, rows, rng):
        s = self.s
        x = self.t[rows]
        if s["kind"] in ("fixed", "unif"):
            return self.model(x, slim_eval=bool(rng.random() < 0.4) and not s["bias"], parallel_eval=bool(rng.random() < 0.4))
        if s["kind"] == "ti" and rng.random() < 0.4:
            return self.model([r.clone() for r in x])
        return self.model(x)


def run(case, obs):
    rng = np.random.default_rng(case["seed"])
    pool = [One(s, rng) for s in case["specs"]]
    used = set()
    for i in range(case["calls"]):
        k = int(rng.integers(len(pool)))
        m = pool[k]
        size = G.pick(rng, [1, 1, 2, 3, 4, 6, 9, 9 if rng.random() < 0.8 else G.pick(rng, [33, 64, 130, 257, 600, 1030, 2100])])
        rows = rng.integers(0, 6, size=size) if size > 9 or rng.random() < 0.6 else rng.permutation(6)[:size]
        size = len(rows)
        rows = [int(r) for r in rows]
        with torch.set_grad_enabled(bool(rng.random() < 0.3)):
            try:
                got = m.call(rows, rng)
            except RuntimeError as e:
                # a change of the merge state is refused if everything is below the cutoff
                if m.s["kind"] != "mps" or m.s["thresh"] > 100 or "cutoff" not in str(e):
                    raise
                obs.hit("refused")
                continue
        need(isinstance(got, torch.Tensor) and got.ndim >= 1 and got.shape[0] == size,
             "number of outputs is not the number of rows", got=tuple(got.shape), rows=size, spec=m.s)
        want, err = m.reference()
        if want is None:
            continue
        g = refs.wide(got)
        need(g.shape == want[rows].shape, "output shape", got=g.shape, want=want[rows].shape)
        fin = np.isfinite(err[rows])
        refs.close(g[fin], want[rows][fin], err[rows][fin], f"row outputs ({m.s['kind']}, batch of {size})", spec=m.s)
        key = None if m.s.get("adaptive") and m.s["thresh"] < 100 else k
        for j, r in enumerate(rows):
            if key is not None:
                old = m.seen.get(r)
                if old is not None and np.isfinite(err[r]).all():
                    refs.close(g[j], old, 2 * err[r], "the same row in another batch")
                    obs.hit("repeated_rows")
                m.seen[r] = g[j]
        obs.hit("calls")
        obs.hit("rows", size)
        obs.hit("single_rows", int(size == 1))
        obs.hit("rows_beside_vanishing", int(fin.sum()) if m.s.get("vanish") and not fin.all() else 0)
        obs.hit("spread_rows", int(fin.sum()) if m.s.get("spread") else 0)
        used.add(k)
        obs.state(k, m.s["kind"], size, m.s.get("label"), m.s.get("n"))
    if len(used) > 1:
        obs.nontrivial(case["seed"])
