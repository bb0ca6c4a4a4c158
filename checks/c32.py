"""C32: a model has exactly the parameters and sizes its configuration describes, for its whole life."""
import copy
import io
from collections import Counter

import numpy as np
import torch

from rtm import gen as G
from rtm import refs
from rtm.core import fail, need

CASES = {"quick": 2700, "thorough": 30000}
RULE = ("random configurations of every model class, arguments given by position or by keyword, left out where they have "
        "their default: trainable parameters (shapes, precision), fixed tensors and reported sizes compared with the "
        "configuration after construction and after every step of a random history (training, merge-state changes, "
        "overwriting, state dictionaries, copies, precision changes, train/eval, feature maps); each parameter is "
        "perturbed to see that the output depends on it; objects built with defaults compared bit by bit with ones built "
        "with the documented defaults; non-trivial if a history of at least 3 steps was followed")
MIN = {"building_blocks": 16, "defaults": 202, "dependences": 1087, "inspections": 5513, "models": 1012,
       "parameters": 16074, "positional": 739}

MPS_ARGS = "input_dim output_dim bond_dim feature_dim periodic_bc parallel_eval label_site path init_std initializer use_bias adaptive_mode cutoff merge_threshold".split()
PROB_ARGS = "seq_len input_dim bond_dim complex_params use_bias init_method embed_fun domain".split()
TI_ARGS = "output_dim bond_dim feature_dim parallel_eval fixed_ends init_std use_bias fixed_bias".split()
# documented defaults (use_bias and cutoff of MPS are documented differently from the code and left out)
MPS_DEF = dict(feature_dim=2, periodic_bc=False, parallel_eval=False, label_site=None, path=None, init_std=1e-9,
               initializer=None, adaptive_mode=False, merge_threshold=2000)
PROB_DEF = dict(complex_params=False, use_bias=False, init_method="near_eye", embed_fun=None, domain=None)


def gen(rng, tier, idx):
    if idx % 6 == 5:
        return {"kind": "defaults", "what": ["mps", "prob", "unif", "ti", "mlp", "funs", "parts"][(idx // 6) % 7], "seed": G.rs(rng),
                "n": G.ri(rng, 1, 7), "o": G.ri(rng, 1, 4), "D": G.ri(rng, 1, 5), "d": G.ri(rng, 1, 4)}
    kind = ["prob", "mps", "ada", "ti", "prob"][idx % 6 % 5]
    c = {"kind": kind, "seed": G.rs(rng)}
    if kind == "prob":
        c["spec"] = G.prob_spec(rng, nmax=6, dtypes=("f32", "f64"), emb=False if rng.random() < 0.4 else None)
        c["spec"]["n"] = max(1, c["spec"]["n"])
        c["spec"]["dist"] = "normal"
    elif kind == "ti":
        c["spec"] = G.ti_spec(rng)
        c["spec"]["dist"] = "normal"
    else:
        c["spec"] = G.mps_spec(rng, nmax=7, adaptive=kind == "ada")
        c["spec"]["dist"] = "normal"
        if kind == "ada":
            c["spec"]["thresh"] = G.pick(rng, [1, 2, 4])
            c["spec"]["cutoff"] = G.pick(rng, [0.0, 1e-10, 1e-3])
    c["pos"] = G.ri(rng, 0, 14)
    c["omit"] = bool(rng.random() < 0.6)
    c["steps"] = [G.pick(rng, ["train", "train", "eval", "set", "sd", "copy", "mode", "map", "cast", "freeze"])
                  for _ in range(G.ri(rng, 2, 7))]
    return c


def build(c):
    """The model of the spec, built with arguments by position or keyword, and its configuration."""
    import torchmps

    s = c["spec"]
    torch.manual_seed(s["seed"])
    if c["kind"] == "prob":
        emb = None
        fdt = G.F[s["dtype"]]
        torch.set_default_dtype(fdt)
        try:
            full = dict(seq_len=s["n"], input_dim=s["d"], bond_dim=s["D"], complex_params=s["cplx"], use_bias=s["bias"],
                        init_method=s["init"])
            if s.get("emb"):
                emb = G.Emb(s["emb"], s["d"], fdt)
                full.update(emb.kwargs())
            names, cls, dflt = PROB_ARGS, torchmps.ProbMPS, PROB_DEF
            if s["kind"] == "unif":
                names, cls = names[1:], torchmps.ProbUnifMPS
                full.pop("seq_len")
            model = make(c, cls, names, full, dflt)
        finally:
            torch.set_default_dtype(torch.float32)
        return model, full, emb
    if c["kind"] == "ti":
        full = dict(output_dim=s["o"], bond_dim=s["D"], feature_dim=s["d"], parallel_eval=s["par"], fixed_ends=s["fixed_ends"],
                    use_bias=s["bias"], fixed_bias=s["fixed_bias"])
        model = make(c, torchmps.TI_MPS, TI_ARGS, full, {"parallel_eval": False, "fixed_ends": False, "feature_dim": 2})
    else:
        full = dict(input_dim=s["n"], output_dim=s["o"], bond_dim=s["D"], feature_dim=s["d"], periodic_bc=s["pbc"],
                    parallel_eval=s["par"], label_site=s["label"], use_bias=s["bias"], path=s["path"])
        if s["adaptive"]:
            full.update(adaptive_mode=True, cutoff=s["cutoff"], merge_threshold=s["thresh"])
        model = make(c, torchmps.MPS, MPS_ARGS, full, MPS_DEF)
    return (model.double() if s["dtype"] == "f64" else model), full, None


DEF_TI = dict(feature_dim=2, parallel_eval=False, fixed_ends=False, init_std=1e-9, use_bias=True, fixed_bias=True)


def make(c, cls, names, full, dflt):
    args = []
    alldef = dict(MPS_DEF, use_bias=True, cutoff=1e-10) if names is MPS_ARGS else DEF_TI if names is TI_ARGS else PROB_DEF
    for k in names[: c["pos"]]:
        args.append(full.get(k, alldef.get(k)))
    kw = {k: v for k, v in full.items() if k not in names[: c["pos"]]}
    if c["omit"]:
        kw = {k: v for k, v in kw.items() if not (k in dflt and (dflt[k] is v or (v is not None and dflt[k] is not None and dflt[k] == v)))}
    return cls(*args, **kw)


def chain_elements(s):
    """number of elements of all cores of an adaptive MPS, both merge states"""
    label = s["n"] // 2 if s["label"] is None else s["label"]
    kinds = ["i"] * label + ["o"] + ["i"] * (s["n"] - label)
    D2, d, o = s["D"] ** 2, s["d"], s["o"]
    size = {"i": D2 * d, "o": D2 * o, "ii": D2 * d * d, "io": D2 * o * d, "oi": D2 * o * d}
    tot = 0
    for off in (0, 1):
        rest = list(kinds)
        if off:
            tot += size[rest.pop(0)]
        while rest:
            k = "".join(rest[:2])
            tot += size[k]
            rest = rest[2:]
    return tot


def expected(c):
    """Counter of (shape, complex) of trainable parameters"""
    s = c["spec"]
    D, d = s["D"], s["d"]
    P = []
    if c["kind"] == "prob":
        z = s["cplx"]
        P = [((s["n"],) * (s["kind"] == "fixed") + (d, D, D), z), ((2, D), z)]
        if s["bias"]:
            P.append(((D, D), z))
    elif c["kind"] == "ti":
        P = [((D, D, d), False)]
        if not s["fixed_ends"]:
            P += [((D,), False), ((D, s["o"]), False)]
        if s["bias"] and not s["fixed_bias"]:
            P.append(((D, D), False))
    elif c["kind"] == "mps":
        label = s["n"] // 2 if s["label"] is None else s["label"]
        P = [((s["o"], D, D), False)]
        for k in (label, s["n"] - label):
            if k:
                P.append(((k, D, D, d), False))
                if s["bias"]:
                    P.append(((1, D, D), False))
    return Counter(P)


def run_model(c, obs):
    s = c["spec"]
    rng = np.random.default_rng(c["seed"])
    model, full, emb = build(c)
    kind = c["kind"]
    fdt = [G.F[s["dtype"]]]
    extra = []  # parameters of a registered feature map
    embpar = [] if getattr(model, "embedding", None) is None or not isinstance(model.embedding, torch.nn.Module) else list(
        model.embedding.parameters())
    want = expected(c)
    trainable_emb = bool(s.get("emb")) and s["emb"]["kind"] in ("mlp", "tabmod", "polymod", "cpolymod")
    need(bool(embpar) == trainable_emb, "embedding parameters are parameters of the model exactly if trainable", emb=s.get("emb"))
    G.set_net_params(model, "normal", rng) if kind != "prob" else G.set_params(model, "normal", rng)

    def inspect(where):
        obs.hit("inspections")
        skip = {id(p) for p in extra} | {id(p) for p in (
            model.embedding.parameters() if trainable_emb else [])}
        ps = [p for p in model.parameters() if p.numel() and id(p) not in skip]
        got = Counter((tuple(p.shape), p.is_complex()) for p in ps)
        obs.hit("parameters", len(ps))
        if kind == "ada":
            tot = sum(p.numel() for p in ps)
            need(tot == chain_elements(s), "number of trainable elements of the adaptive model", at=where, got=tot,
                 want=chain_elements(s))
        else:
            need(got == want, "trainable parameters of the model", at=where, got=dict(got), want=dict(want))
        for p in ps:
            r = {torch.complex64: torch.float32, torch.complex128: torch.float64}.get(p.dtype, p.dtype)
            need(r == fdt[0], "precision of a parameter", at=where, got=str(p.dtype))
        have = {id(p) for p in model.parameters()}
        need(all(id(p) in have for p in extra), "feature map parameters not registered", at=where)
        rep = {}
        if kind == "prob":
            rep = dict(input_dim=s["d"], bond_dim=s["D"], use_bias=s["bias"], complex_params=s["cplx"])
            if s["kind"] == "fixed":
                rep["seq_len"] = s["n"]
        elif kind == "ti":
            rep = dict(output_dim=s["o"], bond_dim=s["D"], feature_dim=s["d"], use_bias=s["bias"])
        else:
            label = s["n"] // 2 if s["label"] is None else s["label"]
            rep = dict(input_dim=s["n"], output_dim=s["o"], bond_dim=s["D"], feature_dim=s["d"], periodic_bc=s["pbc"],
                       adaptive_mode=s["adaptive"], label_site=label, use_bias=s["bias"] and not s["adaptive"])
            if s["adaptive"]:
                rep.update({k: v for k, v in (("cutoff", s["cutoff"]), ("merge_threshold", s["thresh"])) if hasattr(model, k)})
            need(len(model) == s["n"], "len(model)", at=where, got=len(model))
            need(model.core_len() == s["n"] + 1, "core_len()", at=where, got=model.core_len())
            need((model.path is None) == (s["path"] is None) and (s["path"] is None or [int(i) for i in model.path] == s["path"]),
                 "path", at=where)
        for k, v in rep.items():
            need(hasattr(model, k), "a size or option is no longer reported", name=k, at=where)
            g = getattr(model, k)
            need(g == v and isinstance(g, bool) == isinstance(v, bool), "reported size or option", name=k, at=where, got=g, want=v)

    def feed(batch):
        if kind == "prob":
            return G.prob_input(dict(s, inp=G.pick(rng, ["sym", "vec"]), dtype="f64" if fdt[0] == torch.float64 else "f32"), rng,
                                batch, emb)[0]
        if kind == "ti":
            return torch.tensor(rng.uniform(size=(batch, 3, s["d"]))).to(fdt[0])
        return torch.tensor(rng.normal(size=(batch, s.get("width", s["n"]), s["d"]))).to(fdt[0])

    inspect("start")
    # every parameter matters (generic values)
    if s["D"] > 1 and s["d"] > 1 and kind != "ada" and not s.get("emb"):
        x = feed(4)
        with torch.no_grad():
            base = model(x).clone()
            for p in model.parameters():
                if not p.numel():
                    continue
                old = p.clone()
                p.add_(G.rand_like(p, rng, 0.7))
                new = model(x)
                need(not torch.equal(base.nan_to_num(), new.nan_to_num()), "the output does not depend on a parameter", shape=tuple(p.shape))
                p.copy_(old)
                obs.hit("dependences")
    frozen = False
    for st in c["steps"]:
        if st == "train":
            opt = torch.optim.SGD([p for p in model.parameters()], lr=0.01)
            for _ in range(3):
                t = feed(2)
                try:
                    if kind == "prob":
                        G.train_steps(model, opt, lambda: -model(t).mean() if not frozen else torch.tensor(float("inf")), 1)
                    else:
                        G.train_steps(model, opt, lambda: model(t).pow(2).mean() if not frozen else torch.tensor(float("inf")), 1)
                except RuntimeError as e:
                    if "cutoff" not in str(e):
                        raise
        elif st == "eval":
            with torch.no_grad():
                try:
                    out = model(feed(3))
                except RuntimeError as e:
                    if "cutoff" not in str(e):
                        raise
                else:
                    need(tuple(out.shape) == ((3,) if kind == "prob" else (3, s["o"])), "output shape", got=tuple(out.shape))
        elif st == "set":
            G.set_params(model, "normal", rng) if kind == "prob" else G.set_net_params(model, "normal", rng)
        elif st == "sd":
            buf = io.BytesIO()
            torch.save(model.state_dict(), buf)
            buf.seek(0)
            model.load_state_dict(torch.load(buf))
        elif st == "copy":
            model = copy.deepcopy(model)
            if extra:
                extra = list(model.feature_map.parameters())
        elif st == "mode":
            model.train(not model.training)
        elif st == "map" and kind != "prob":
            f = LinMap(s["d"], fdt[0]) if rng.random() < 0.5 else None
            model.register_feature_map(f)
            extra = [] if f is None else list(f.parameters())
        elif st == "cast" and not s.get("emb"):
            if kind != "prob" or not s["cplx"]:
                model = model.double()
            else:
                model = model.to(torch.complex128)
            fdt[0] = torch.float64
        elif st == "freeze":
            frozen = not frozen
            model.requires_grad_(not frozen)
        inspect(st)
    obs.hit("models")
    if c["pos"] > 3:
        obs.hit("positional")
    obs.state(kind, *[str(s.get(k)) for k in ("n", "d", "D", "o", "bias", "label", "pbc", "cplx")])
    if len(c["steps"]) >= 3:
        obs.nontrivial(c["seed"])


class LinMap(torch.nn.Module):
    def __init__(self, d, dtype):
        super().__init__()
        self.a = torch.nn.Parameter(torch.ones(d).to(dtype))

    def forward(self, x):
        return self.a * x


def same(a, b, what):
    need(type(a) is type(b), f"{what}: type", got=str(type(a)))
    if isinstance(a, torch.Tensor):
        need(a.dtype == b.dtype and a.shape == b.shape and torch.equal(a, b), f"{what} differs", got=a, want=b)
    elif isinstance(a, (tuple, list)):
        need(len(a) == len(b), f"{what}: length")
        for x, y in zip(a, b):
            same(x, y, what)
    else:
        need(a == b, f"{what} differs", got=a, want=b)


def twins(seed, f, g):
    torch.manual_seed(seed)
    np.random.seed(seed % 2**31)
    a = f()
    torch.manual_seed(seed)
    np.random.seed(seed % 2**31)
    return a, g()


def same_model(a, b, x, what):
    sa, sb = a.state_dict(), b.state_dict()
    need(sorted(sa) == sorted(sb), f"{what}: built with defaults has other tensors", got=sorted(sa), want=sorted(sb))
    for k in sa:
        same(sa[k], sb[k], f"{what}: {k} of a model built with defaults")
    with torch.no_grad():
        same(a(x), b(x), f"{what}: output of a model built with defaults")


def content(x):
    """What a constructed object holds: tensors, trainability, plain settings."""
    out = {"type": type(x).__name__}
    if isinstance(x, torch.nn.Module):
        out.update({"param " + k: v.detach() for k, v in x.named_parameters()})
        out.update({"buffer " + k: v for k, v in x.named_buffers()})
        out["modules"] = [(k, type(m).__name__) for k, m in x.named_modules()]
    out.update({k: v for k, v in vars(x).items() if not k.startswith("_") and isinstance(v, (bool, int, float, str, torch.Tensor))})
    return out


def alike(seed, f, g, what):
    a, b = twins(seed, f, g)
    u, v = content(a), content(b)
    need(sorted(u) == sorted(v), f"{what}: by position and by name give other attributes", got=sorted(u), want=sorted(v))
    for k in u:
        same(u[k], v[k], f"{what} by position and by name: {k}")
    return a


def run_parts(c, obs):
    """The building blocks take their documented arguments in the documented order."""
    from torchmps import contractables as K
    from torchmps import embeddings as E
    from torchmps import torchmps as T

    n, o, D, d, seed = c["n"], c["o"], c["D"], c["d"], c["seed"]
    rng = np.random.default_rng(seed)
    new = lambda *shape: torch.tensor(rng.normal(size=shape)).float()
    core, bias, site, out = new(n, D, D, d), new(D, D), new(D, D, d), new(o, D, D)
    x = new(3, n, d)
    for ub, fb, eph in [(True, True, False), (True, False, False), (False, True, True), (True, True, True)]:
        b = bias if ub else None
        r = alike(seed, lambda: T.InputRegion(core, ub, fb, b, eph),
                  lambda: T.InputRegion(tensor=core, use_bias=ub, fixed_bias=fb, bias_mat=b, ephemeral=eph), "InputRegion")
        train = {k for k, _ in r.named_parameters()}
        need(train == (set() if eph else {"tensor"} if fb else {"tensor", "bias_mat"}), "trainable tensors of InputRegion", got=train)
        mats = r(x)
        got = refs.wide(mats.reduce().tensor) if n > 1 else refs.wide(mats.tensor)[:, 0]
        m = np.einsum("slri,bsi->bslr", refs.wide(core), refs.wide(x)) + (refs.wide(bias) if ub else 0)
        want = m[:, 0]
        for k in range(1, n):
            want = want @ m[:, k]
        refs.close(got, want, 1e-4 * (1 + np.abs(want).max()), "InputRegion")
    s = T.InputSite(site)
    r = T.InputRegion(core, True, True, bias)
    for per, par in [(False, True), (True, False), (True, True)]:
        parts = lambda: [T.InputRegion(core, True, True, bias), T.OutputSite(out), T.InputSite(site)]
        a = alike(seed, lambda: T.LinearRegion(parts(), per, par),
                  lambda: T.LinearRegion(module_list=parts(), periodic_bc=per, parallel_eval=par), "LinearRegion")
        need((a.periodic_bc, a.parallel_eval) == (per, par), "settings of LinearRegion")
        y = a(new(3, n + 1, d))
        need(tuple(y.tensor.shape if isinstance(y, K.Contractable) else y.shape) == (3, o),
             "shape of the output of LinearRegion", periodic=per,
             got=y.tensor.shape if isinstance(y, K.Contractable) else y.shape)
        cut, thr = float(10.0 ** -rng.integers(2, 8)), int(rng.integers(1, 50))
        parts2 = lambda: [T.InputRegion(core, False), T.OutputSite(out), T.InputRegion(core, False)]
        a = alike(seed, lambda: T.MergedLinearRegion(parts2(), per, par, cut, thr),
                  lambda: T.MergedLinearRegion(module_list=parts2(), periodic_bc=per, parallel_eval=par, cutoff=cut, merge_threshold=thr),
                  "MergedLinearRegion")
        need((a.cutoff, a.merge_threshold) == (cut, thr), "settings of MergedLinearRegion", got=(a.cutoff, a.merge_threshold))
        # the change comes with the first call after the threshold
        first = [id(q) for q in a.module_list]
        seen = 0
        z = new(thr, 2 * n, d)
        try:
            a(z)
            need([id(q) for q in a.module_list] == first, "MergedLinearRegion changes before its threshold", thr=thr)
            a(z)
            need([id(q) for q in a.module_list] != first, "MergedLinearRegion does not change at its threshold", thr=thr)
        except RuntimeError as e:
            if "cutoff" not in str(e):
                raise
    merged = new(o, D, D, d)
    for left in (True, False):
        a = alike(seed, lambda: T.MergedOutput(merged, left), lambda: T.MergedOutput(tensor=merged, left_output=left), "MergedOutput")
        need(a.left_output == left, "side of MergedOutput")
        for fixed in (True, False):
            fill = int(rng.integers(0, D + 1))
            a = alike(seed, lambda: T.InitialVector(D, fill, fixed, left),
                      lambda: T.InitialVector(bond_dim=D, fill_dim=fill, fixed_vec=fixed, is_left_vec=left), "InitialVector")
            need(len(list(a.parameters())) == int(not fixed) and a.is_left_vec == left, "InitialVector")
            need(a.vec.tolist() == [1.0] * fill + [0.0] * (D - fill), "entries of InitialVector", got=a.vec, fill=fill)
            if o <= D or not fixed:
                a = alike(seed, lambda: T.TerminalOutput(D, o, fixed, left),
                          lambda: T.TerminalOutput(bond_dim=D, output_dim=o, fixed_mat=fixed, is_left_mat=left), "TerminalOutput")
                need(len(list(a.parameters())) == int(not fixed) and a.is_left_mat == left and tuple(a.mat.shape) == (D, o), "TerminalOutput")
        v, m = new(3, D), new(3, D, o) if not left else new(3, o, D)
        alike(seed, lambda: K.EdgeVec(v, left), lambda: K.EdgeVec(vec=v, is_left_vec=left), "EdgeVec")
    for cont, hi, lo in [(True, 2.0, -1.0), (False, 4, None)]:
        args = (cont, hi, lo) if cont else (cont, hi)
        kw = dict(continuous=cont, max_val=hi, **({"min_val": lo} if cont else {}))
        dom = alike(seed, lambda: E.DataDomain(*args), lambda: E.DataDomain(**kw), "DataDomain")
        f = (lambda x: E.trig_embed(x, d)) if cont else (lambda x: torch.eye(4)[x])
        e = alike(seed, lambda: E.FixedEmbedding(f, dom), lambda: E.FixedEmbedding(emb_fun=f, data_domain=dom), "FixedEmbedding")
        need(e.domain is dom and e.emb_dim == (d if cont else 4), "FixedEmbedding")
        net = torch.nn.Linear(1, d)
        g = alike(seed, lambda: E.TrainableEmbedding(net, dom), lambda: E.TrainableEmbedding(emb_fun=net, data_domain=dom),
                  "TrainableEmbedding")
        need(g.domain is dom and sum(p is q for p in g.parameters() for q in net.parameters()) == 2, "TrainableEmbedding")
    a = alike(seed, lambda: K.MatRegion(new(3, n, D, D) * 0 + core[..., 0]), lambda: K.MatRegion(mats=new(3, n, D, D) * 0 + core[..., 0]),
              "MatRegion")
    obs.hit("building_blocks")


def run_defaults(c, obs):
    import torchmps
    from torchmps import embeddings as E
    from torchmps import mps_base as B
    from torchmps import utils as U

    n, o, D, d, seed = c["n"], c["o"], c["D"], c["d"], c["seed"]
    rng = np.random.default_rng(seed)
    w = c["what"]
    if w == "parts":
        run_parts(c, obs)
    elif w == "mps":
        for k in [None, "periodic_bc", "adaptive_mode"]:
            kw = {} if k is None else {k: True}
            full = dict(MPS_DEF, label_site=n // 2, **kw) if k is None else dict(MPS_DEF, label_site=n // 2)
            full.update(kw)
            a, b = twins(seed, lambda: torchmps.MPS(n, o, D, **kw), lambda: torchmps.MPS(n, o, D, **full))
            same_model(a, b, torch.tensor(rng.random((3, n))).float(), "MPS")
            for m in ("input_dim", "output_dim", "bond_dim", "feature_dim", "periodic_bc", "adaptive_mode", "label_site", "path"):
                same(getattr(a, m), getattr(b, m), f"MPS: {m}")
            if k == "adaptive_mode":
                # the first change comes after 2000 inputs
                x = torch.rand(1000, n)
                ids = []
                for _ in range(4):
                    try:
                        a(x)
                    except RuntimeError as e:
                        if "cutoff" not in str(e):
                            raise
                        break
                    ids.append([id(q) for q in a.linear_region.module_list])
                need(all(i == ids[0] for i in ids[:2]), "adaptive MPS changes before its default threshold of 2000 inputs")
                need(len(ids) < 3 or ids[2] != ids[1], "adaptive MPS does not change at its default threshold of 2000 inputs")
    elif w == "ti":
        a, b = twins(seed, lambda: torchmps.TI_MPS(o, D), lambda: torchmps.TI_MPS(o, D, **DEF_TI))
        same_model(a, b, torch.tensor(rng.random((3, n))).float(), "TI_MPS")
    elif w in ("prob", "unif"):
        cls = torchmps.ProbMPS if w == "prob" else torchmps.ProbUnifMPS
        args = (n, d, D) if w == "prob" else (d, D)
        a, b = twins(seed, lambda: cls(*args), lambda: cls(*args, **PROB_DEF))
        x = torch.tensor(rng.integers(0, d, size=(3, n)))
        same_model(a, b, x, cls.__name__)
        with torch.no_grad():
            same(a(x), a(x, slim_eval=False, parallel_eval=False), "default evaluation")
            same(a(x), a(x, False, False), "default evaluation")
            same(a(x, True), a(x, slim_eval=True), "slim evaluation by position")
            same(a(x, False, True), a(x, parallel_eval=True), "parallel evaluation by position")
            same(a.loss(x), a.loss(x, slim_eval=False, parallel_eval=False), "default loss")
    elif w == "mlp":
        a, b = twins(seed, lambda: E.init_mlp_embed(d), lambda: E.init_mlp_embed(d, num_layers=2, hidden_dims=[100],
                                                                              data_domain=E.unit_interval))
        x = torch.tensor(rng.random((3, n))).float()
        same_model(a, b, x, "init_mlp_embed")
        same(a.lamb_mat, b.lamb_mat, "normalization matrix")
        need((a.domain.continuous, a.domain.min_val, a.domain.max_val) == (True, 0, 1), "default domain of init_mlp_embed")
        k, h = G.ri(rng, 1, 4), G.ri(rng, 1, 5)
        dom = E.DataDomain(True, 2.5, -1.0)
        a, b = twins(seed, lambda: E.init_mlp_embed(d, k, h, dom),
                     lambda: E.init_mlp_embed(output_dim=d, num_layers=k, hidden_dims=[h] * (k - 1), data_domain=dom))
        same_model(a, b, x, "init_mlp_embed")
        need(a.domain is dom, "domain given to init_mlp_embed")
        shapes = [tuple(p.shape) for p in a.parameters()]
        dims = [1] + [h] * (k - 1) + [d]
        need(shapes == [q for i in range(k) for q in ((dims[i + 1], dims[i]), (dims[i + 1],))], "layers of the perceptron", got=shapes)
        v = x[..., None].double()
        layers = list(a.parameters())
        for i in range(k):
            v = torch.sigmoid(v @ layers[2 * i].double().T + layers[2 * i + 1].double())
        refs.close(refs.wide(a(x)), v.detach().numpy(), 1e-5, "perceptron embedding")
        same(E.trig_embed(x), E.trig_embed(x, 2), "default dimension of trig_embed")
        same(E.sincos_embed(x), E.trig_embed(x, 2), "sincos_embed")
        q = E.DataDomain(continuous=False, max_val=n)
        need(not q.continuous and q.max_val == n, "DataDomain attributes")
        need((E.unit_interval.continuous, E.unit_interval.min_val, E.unit_interval.max_val) == (True, 0, 1), "unit_interval")
    else:
        for f, kw in ((B.near_eye_init, dict(is_complex=False, noise=1e-3)), (B.normal_init, dict(is_complex=False, rel_std=1.0))):
            same(*twins(seed, lambda: f((n, d, D, D)), lambda: f((n, d, D, D), **kw)), f.__name__)
        m = torch.tensor(rng.normal(size=(2, n, D, D)))
        l, r = torch.tensor(rng.normal(size=(2, D))), torch.tensor(rng.normal(size=D))
        same(B.contract_matseq(m, l, r), B.contract_matseq(matrices=m, left_vec=l, right_vec=r, parallel_eval=False, log_format=False),
             "contract_matseq")
        same(B.contract_matseq(m, l, r, True, True), B.contract_matseq(m, left_vec=l, right_vec=r, parallel_eval=True, log_format=True),
             "contract_matseq")
        same(B.contract_matseq(m), B.contract_matseq(m, None, None, False, False), "contract_matseq")
        t = torch.tensor(rng.normal(size=(D, d, D)))
        t[..., 1:] *= 1e-9
        full = min(D * d, D)
        same(U.svd_flex(t, "lir->lu,uir"), U.svd_flex(t, "lir->lu,uir", None, 1e-10, True, None), "svd_flex")
        core, bv = torch.tensor(rng.normal(size=(n, d, D, D))), torch.tensor(rng.normal(size=(2, D)))
        same(B.get_log_norm(core, bv), B.get_log_norm(core, bv, length=None, lamb_mat=None), "get_log_norm")
        same(B.get_log_norm(core[0], bv, n), B.get_log_norm(core[0], bv, length=n), "get_log_norm")
    obs.hit("defaults")
    obs.state(w, n, o, D, d)
    obs.nontrivial(seed)


def run(c, obs):
    run_defaults(c, obs) if c["kind"] == "defaults" else run_model(c, obs)
