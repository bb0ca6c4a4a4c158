"""C24: malformed inputs and inconsistent configurations are refused by every model and option."""
import numpy as np
import torch

from rtm import gen as G
from rtm.core import Skip, fail, need

CASES = {"quick": 4800, "thorough": 60000}
RULE = ("models of every class, option and state (adaptive ones in both merge states) are offered inputs which an "
        "independent classifier calls malformed (wrong length, feature size - size one included -, order, symbols at or "
        "above the alphabet size in a single position, mixed or unequal lists, map or embedding results of wrong size) "
        "through every evaluation option, and well-formed neighbours of them which must be accepted; inconsistent "
        "configurations are offered to the constructors; non-trivial if at least one malformed input was offered")
MIN = {"accepted": 7173, "accepted_length": 964, "accepted_ragged": 108, "refused": 16607, "refused: domain": 12,
       "refused: embdim": 50, "refused: embdim_trainable": 118, "refused: empty list": 12,
       "refused: feature size": 3132, "refused: feature size in a list": 402, "refused: label": 95,
       "refused: length": 2347, "refused: map": 120, "refused: map result size": 1963, "refused: method": 109,
       "refused: mixed list": 206, "refused: no map for this feature size": 514, "refused: order": 4099,
       "refused: order in a list": 410, "refused: output does not fit fixed ends": 17, "refused: path": 16,
       "refused: pathtype": 111, "refused: range": 87, "refused: real symbols": 813, "refused: sizes": 126,
       "refused: string": 12, "refused: symbol range": 1186, "refused: type": 383,
       "refused: unequal list without padding": 198}


def gen(rng, tier, idx):
    kind = ["prob", "prob", "net", "net", "ti", "config"][idx % 6]
    c = {"kind": kind, "seed": G.rs(rng)}
    if kind == "prob":
        c["spec"] = s = G.prob_spec(rng, nmax=6)
        s["n"] = max(1, s["n"])
        if idx % 60 == 6:
            s.update(d=G.pick(rng, [100, 256, 257, 300]), D=2, emb=None)
        s["dist"] = G.pick(rng, ["init", "normal", "eye"])
        s["inp"] = G.pick(rng, ["sym", "vec"])
    elif kind == "net":
        c["spec"] = s = G.mps_spec(rng)
        s["dist"] = G.pick(rng, ["init", "eye"])
        if s["adaptive"]:
            s["thresh"] = G.pick(rng, [1, 2, 4, 2000])
            s["cutoff"] = 1e-12
    elif kind == "ti":
        c["spec"] = G.ti_spec(rng)
        c["spec"]["dist"] = "normal"
    else:
        c["what"] = G.pick(rng, ["label", "path", "pathtype", "domain", "embdim", "embdim", "embdim_trainable", "range",
                                 "sizes", "method", "ends", "map", "map", "emptylist"])
    return c


def refused(f, obs, what, **kw):
    """f must raise."""
    try:
        out = f()
    except Exception:
        obs.hit("refused")
        obs.hit("refused: " + what)
        return
    fail(f"malformed and yet accepted: {what}", got=out if not isinstance(out, torch.Tensor) else out.detach().reshape(-1)[:4], **kw)


def odd(rng, ok, lo=0, hi=8):
    """A size other than ok, biased to 1 and neighbours."""
    cand = [x for x in (1, 1, ok - 1, ok + 1, 2 * ok, int(rng.integers(lo, hi))) if x != ok and x >= lo]
    return int(cand[int(rng.integers(len(cand)))])


def run_prob(c, obs):
    s = c["spec"]
    rng = np.random.default_rng(c["seed"])
    model, emb = G.build_prob(s)
    fdt = G.F[s["dtype"]]
    n, d, fixed = s["n"], s["d"], s["kind"] == "fixed"
    opts = [(False, False), (False, True)] + ([] if s["bias"] else [(True, False), (True, True)])

    def offer(t, what):
        for slim, par in opts:
            for fn in (model, model.loss) if rng.random() < 0.3 else (model,):
                if rng.random() < 0.3:
                    with torch.no_grad():
                        refused(lambda: fn(t, slim_eval=slim, parallel_eval=par), obs, what,
                                shape=tuple(t.shape), slim=slim, par=par)
                else:
                    refused(lambda: fn(t, slim_eval=slim, parallel_eval=par), obs, what,
                            shape=tuple(t.shape), slim=slim, par=par)
        obs.nontrivial(c["seed"], what)

    for _ in range(4):
        B = int(rng.integers(1, 5))
        good, _ = G.prob_input(s, rng, B, emb)
        raw = emb is not None or s["inp"] == "sym"
        what = G.pick(rng, ["length", "order", "feature", "range", "float"])
        if what == "length":
            if fixed:
                m = odd(rng, n)
                bad, _ = G.prob_input({**s, "n": m}, rng, B, emb)
                if rng.random() < 0.2 and B != n and raw:
                    bad = good.transpose(0, 1)  # (seq_len, batch) given instead
                    if bad.shape[1] == n:
                        continue
                offer(bad, "length")
            else:
                # any length is fine for shared cores
                m = int(rng.integers(0, 9))
                t, _ = G.prob_input({**s, "n": m}, rng, B, emb)
                for slim, par in opts:
                    try:
                        need(model(t, slim_eval=slim, parallel_eval=par).shape == (B,), "wrong shape")
                    except (AssertionError,) as e:
                        # a norm out of range may be reported
                        obs.hit("unusable")
                        continue
                    obs.hit("accepted_length")
        elif what == "order":
            bad = good[0] if (rng.random() < 0.4 and good.ndim == 2) else (
                good[..., None].expand(*good.shape, d) if emb is not None and emb.spec["kind"] in ("table", "poly", "trig", "tabmod")
                else good[None] if not raw else good[:, :, None, None])
            offer(bad, "order")
        elif what == "feature":
            if emb is not None:
                continue
            e = odd(rng, d, lo=1)
            v = torch.tensor(np.abs(rng.normal(size=(B, n, e))) + 0.1).to(fdt)
            if s["cplx"] and rng.random() < 0.3:
                v = v.to(torch.complex64 if s["dtype"] == "f32" else torch.complex128)
            offer(v, "feature size")
        elif what == "range":
            if not raw or (emb is not None and emb.cont):
                continue
            if emb is not None and emb.spec["kind"] not in ("table", "tabmod", "onehot"):
                continue
            top = emb.size if emb is not None else d
            bad = good.clone()
            bad[int(rng.integers(B)), int(rng.integers(n))] = top + G.pick(rng, [0, 0, 1, 5])
            offer(bad, "symbol range")
        else:
            # real numbers are no symbols
            if emb is None and raw:
                offer(good.to(fdt), "real symbols")
        # the neighbour which is fine
        try:
            out = model(good)
        except AssertionError:
            obs.hit("unusable")
            continue
        need(out.shape == (B,), "wrong shape of a regular result")
        obs.hit("accepted")


def run_net(c, obs):
    s = c["spec"]
    rng = np.random.default_rng(c["seed"])
    model = G.build_mps(s)
    fdt = G.F[s["dtype"]]
    n, d = s["n"], s["d"]
    width = s.get("width", n)
    # into some merge state
    for _ in range(int(rng.integers(0, 3))):
        model(G.mps_input(s, rng, int(rng.integers(1, 4)))[0])

    def offer(t, what):
        par = model.linear_region.parallel_eval
        for p in (False, True):
            model.linear_region.parallel_eval = p
            refused(lambda: model(t), obs, what, shape=tuple(t.shape), parallel=p)
        model.linear_region.parallel_eval = par
        obs.nontrivial(c["seed"], what)

    for _ in range(4):
        B = int(rng.integers(1, 5))
        what = G.pick(rng, ["length", "feature", "order", "map", "nomap"])
        pre = rng.random() < 0.6 or d != 2
        if what == "length":
            if s["path"] is None:
                m = odd(rng, n)
            else:
                m = max(s["path"])  # one position short of what the path needs
                m = int(rng.integers(0, m + 1)) if m else 0
            sh = (B, m, d) if pre else (B, m)
            offer(torch.tensor(rng.uniform(0.1, 1, size=sh)).to(fdt), "length")
        elif what == "feature":
            e = odd(rng, d, lo=1)
            offer(torch.tensor(rng.uniform(0.1, 1, size=(B, width, e))).to(fdt), "feature size")
        elif what == "order":
            sh = G.pick(rng, [(width,), (B, width, d, 1), (B, width, 1, d), (1, B, width, d)] if s["path"] is None
                        else [(width,), (B, width, d, 1), (B, width, 1, d)])
            offer(torch.tensor(rng.uniform(0.1, 1, size=sh)).to(fdt), "order")
        elif what == "nomap":
            if d != 2:
                offer(torch.tensor(rng.uniform(0, 1, size=(B, width))).to(fdt), "no map for this feature size")
        else:
            # a map whose results are of another size for real data than for the probe
            e = odd(rng, d, lo=1)
            bad = G.pick(rng, ["all", "some", "order"])

            def f(x):
                if x.dtype == torch.int64:
                    return torch.ones(d)
                if bad == "order":
                    return torch.ones(d, 1)
                if bad == "some" and float(x) < 0.5:
                    return torch.ones(d, dtype=fdt)
                return torch.ones(e, dtype=fdt)

            model.register_feature_map(f)
            x = torch.tensor(rng.uniform(0, 1, size=(B, width))).to(fdt)
            used = x[:, s["path"]] if s["path"] is not None else x
            if bad != "some" or bool((used >= 0.5).any()):
                offer(x, "map result size")
            model.register_feature_map(None)
        t, _ = G.mps_input(s, rng, B)
        need(model(t).shape == (B, s["o"]), "wrong shape of a regular result")
        obs.hit("accepted")


def run_ti(c, obs):
    s = c["spec"]
    rng = np.random.default_rng(c["seed"])
    model = G.build_ti(s)
    fdt = G.F[s["dtype"]]
    d = s["d"]

    def ten(*sh):
        return torch.tensor(rng.uniform(0.1, 1, size=sh)).to(fdt)

    def offer(t, what):
        par = model.parallel_eval
        for p in (False, True):
            model.parallel_eval = p
            refused(lambda: model(t), obs, what, parallel=p)
        model.parallel_eval = par
        obs.nontrivial(c["seed"], what)

    for _ in range(5):
        B, n = int(rng.integers(1, 4)), int(rng.integers(1, 5))
        what = G.pick(rng, ["feature", "order", "listfeature", "mixed", "unequal", "type", "listorder", "map", "nomap"])
        e = odd(rng, d, lo=1)
        if what == "feature":
            offer(ten(B, n, e), "feature size")
        elif what == "order":
            offer(G.pick(rng, [ten(n), ten(B, n, d, 1), ten(B, n, 1, d), ten()]), "order")
        elif what == "listfeature":
            seqs = [ten(n, d) for _ in range(B)]
            seqs[int(rng.integers(B))] = ten(n, e)
            offer(seqs, "feature size in a list")
        elif what == "mixed":
            if d != 2:
                continue
            seqs = [ten(n, d) if k % 2 else ten(n) for k in range(B + 1)]
            offer(seqs, "mixed list")
        elif what == "unequal":
            pad = s["bias"] and s["fixed_bias"]
            seqs = [ten(n, d) for _ in range(B)] + [ten(n + int(rng.integers(1, 3)), d)]
            rng.shuffle(seqs) if False else None
            if rng.random() < 0.5:
                seqs = seqs[::-1]
            if pad:
                need(model(seqs).shape == (B + 1, s["o"]), "wrong shape of a regular result")
                obs.hit("accepted_ragged")
            else:
                offer(seqs, "unequal list without padding")
        elif what == "type":
            offer(G.pick(rng, [tuple(ten(n, d) for _ in range(B)), ten(B, n, d).numpy(), "abc", None,
                               [ten(n, d).numpy() for _ in range(B)]]), "type")
        elif what == "listorder":
            offer([ten(1, n, d) for _ in range(B)], "order in a list")
        elif what == "nomap":
            if d != 2:
                offer(ten(B, n), "no map for this feature size")
                offer([ten(n) for _ in range(B)], "no map for this feature size")
        else:
            model.register_feature_map(lambda x: torch.ones(d if x.dtype == torch.int64 else e, dtype=fdt))
            offer(ten(B, n), "map result size")
            offer([ten(n) for _ in range(B)], "map result size")
            model.register_feature_map(None)
        need(model(ten(B, n, d)).shape == (B, s["o"]), "wrong shape of a regular result")
        obs.hit("accepted")


def run_config(c, obs):
    from torchmps import MPS, TI_MPS, ProbMPS, ProbUnifMPS
    from torchmps import embeddings as E

    rng = np.random.default_rng(c["seed"])
    what = c["what"]
    n, d, D, o = int(rng.integers(1, 6)), int(rng.integers(1, 5)), int(rng.integers(1, 5)), int(rng.integers(1, 4))
    ad = bool(rng.random() < 0.3)
    obs.nontrivial(what, n, d, D, o, ad)

    def prob(**kw):
        return ProbMPS(n, d, D, **kw) if rng.random() < 0.5 else ProbUnifMPS(d, D, **kw)

    if what == "label":
        for bad in (-1, n + 1, n + 3, -n - 1):
            refused(lambda: MPS(n, o, D, label_site=bad, adaptive_mode=ad), obs, what, label=bad, n=n)
        for good in range(n + 1):
            MPS(n, o, D, label_site=good, adaptive_mode=ad)
            obs.hit("accepted")
    elif what == "path":
        m = odd(rng, n)
        p = [int(i) for i in rng.integers(0, 5, size=m)]
        p = torch.tensor(p) if rng.random() < 0.3 else p
        refused(lambda: MPS(n, o, D, path=p, adaptive_mode=ad), obs, what, path=p, n=n)
        MPS(n, o, D, path=list(range(n)), adaptive_mode=ad)
        obs.hit("accepted")
    elif what == "pathtype":
        for p in (tuple(range(n)), "a" * n, range(n), {i: i for i in range(n)}):
            refused(lambda: MPS(n, o, D, path=p), obs, what, path=p)
    elif what == "domain":
        refused(lambda: prob(embed_fun=lambda x: torch.ones(x.shape + (d,))), obs, what)
    elif what in ("embdim", "embdim_trainable"):
        e = odd(rng, d, lo=1)
        cont = bool(rng.random() < 0.5)
        dom = E.DataDomain(continuous=True, max_val=1, min_val=0) if cont else E.DataDomain(continuous=False, max_val=3)
        t = torch.tensor(rng.normal(size=(3, e))).float()
        base = (lambda x: torch.stack([x**j for j in range(e)], -1)) if cont else (lambda x: t[x])
        if what == "embdim":
            if rng.random() < 0.5:
                obj = E.FixedEmbedding(base, dom)
                refused(lambda: prob(embed_fun=obj), obs, what, emb=e, d=d)
            else:
                refused(lambda: prob(embed_fun=base, domain=dom), obs, what, emb=e, d=d)
        else:
            mod = G.PolyModule(torch.tensor(rng.normal(size=(2, e))).float()) if cont else G.TabModule(t)
            obj = E.TrainableEmbedding(mod, dom)
            x = torch.rand(2, n) if cont else torch.randint(0, 3, (2, n))
            for slim in (False, True):
                for par in (False, True):
                    refused(lambda: prob(embed_fun=obj)(x, slim_eval=slim, parallel_eval=par), obs, what, emb=e, d=d)
    elif what == "range":
        a = float(rng.normal())
        refused(lambda: E.DataDomain(continuous=True, max_val=a - abs(float(rng.normal())), min_val=a), obs, what)
        refused(lambda: E.DataDomain(continuous=False, max_val=-int(rng.integers(1, 5))), obs, what)
        refused(lambda: E.DataDomain(continuous=True, max_val=a, min_val=a), obs, what)
        E.DataDomain(continuous=True, max_val=a + 0.1, min_val=a)
        obs.hit("accepted")
    elif what == "sizes":
        for k in range(3):
            a = [n, d, D]
            a[k] = int(rng.integers(-2, 1))
            refused(lambda: ProbMPS(*a), obs, what, args=a)
            if k:
                refused(lambda: ProbUnifMPS(*a[1:]), obs, what, args=a)
    elif what == "method":
        for bad in ("eye", "", "random_eye", None):
            refused(lambda: prob(init_method=bad), obs, what)
    elif what == "ends":
        refused(lambda: TI_MPS(D + int(rng.integers(1, 4)), D, fixed_ends=True), obs, "output does not fit fixed ends")
        TI_MPS(D, D, fixed_ends=True)
        obs.hit("accepted")
    elif what == "map":
        e = odd(rng, d, lo=1)
        net = MPS(n, o, D, feature_dim=d, adaptive_mode=ad) if rng.random() < 0.5 else TI_MPS(o, D, feature_dim=d)
        refused(lambda: net.register_feature_map(lambda x: torch.ones(e)), obs, what, size=e, d=d)
        refused(lambda: net.register_feature_map(lambda x: torch.ones(1, d)), obs, what)
        refused(lambda: net.register_feature_map(lambda x: torch.ones(d, 1)), obs, what)
        net.register_feature_map(lambda x: torch.ones(d))
        obs.hit("accepted")
    else:
        net = TI_MPS(o, D)
        refused(lambda: net([]), obs, "empty list")
        refused(lambda: net("01"), obs, "string")


def run(c, obs):
    {"prob": run_prob, "net": run_net, "ti": run_ti, "config": run_config}[c["kind"]](c, obs)
