"""C35: models are independent of each other."""
import copy
import io

import numpy as np
import torch

from rtm import gen as G
from rtm import mon, refs
from rtm.core import Skip, fail, need

CASES = {"quick": 700, "thorough": 6000}
CHUNK = 4
RULE = ("a pool of two to five models of all classes (several of the same configuration, sharing no object except "
        "data domains and fixed embedding functions) undergoes random histories of training steps, evaluations, overwritten and rescaled "
        "parameters, feature maps, state dictionaries loaded from another member, copies, failing calls, precision and mode "
        "changes, threads; after every operation the monitor compares, for every member the operation was not on, all "
        "parameters, buffers, gradients, lists, maps and settings bit by bit and the outputs on a fixed batch with what "
        "they were before, and checks that no two tensors of the pool share memory and no two models a module; arguments handed to constructors "
        "must stay as they were; non-trivial with at least three members and six operations")
MIN = {"arguments": 180, "bystanders": 6253, "copies": 126, "exact_at_the_end": 396, "loads": 185,
       "op_buffers": 124, "op_cast": 110, "op_copy": 128, "op_del": 120, "op_eval": 116, "op_fail": 121,
       "op_freeze": 115, "op_inplace": 123, "op_lambda": 118, "op_load": 250, "op_map": 117, "op_mode": 125,
       "op_reset": 119, "op_set": 130, "op_thread": 129, "op_train": 364, "op_zero": 117, "pools": 315,
       "remade": 6, "shared_domains": 51, "shared_functions": 24, "storages": 39180}


def gen(rng, tier, idx):
    specs = []
    for _ in range(G.ri(rng, 1, 3)):
        k = G.pick(rng, ["prob", "prob", "mps", "ada", "ada", "ti"])
        s = {"kind": k}
        if k == "prob":
            s["spec"] = G.prob_spec(rng, nmax=5)
            s["spec"]["n"] = max(1, s["spec"]["n"])
            s["spec"]["inp"] = G.pick(rng, ["sym", "vec"])
            if rng.random() < 0.3:  # one function and domain object for several models
                s["spec"]["emb"] = dict(G.emb_spec(rng, s["spec"]["d"], s["spec"]["cplx"], trainable=False), wrapped=False)
                s["twice"] = True
        elif k == "ti":
            s["spec"] = G.ti_spec(rng)
        else:
            s["spec"] = G.mps_spec(rng, nmax=5, adaptive=k == "ada")
            s["spec"]["thresh"] = G.pick(rng, [2, 3, 5])
        if rng.random() < 0.5 or s["spec"]["dist"] == "sparse":
            s["spec"]["dist"] = "init"  # a norm of zero leaves nothing to compare
        specs.append(s)
    pool = []
    for s in specs:
        for r in range(2 if s.pop("twice", None) else G.pick(rng, [1, 2, 2])):
            t = dict(s, spec=dict(s["spec"], seed=G.rs(rng)))
            if s["kind"] == "prob" and s["spec"]["emb"]:
                t["spec"]["emb"] = dict(s["spec"]["emb"], seed=G.rs(rng))
            pool.append(t)
    pool = pool[:5]
    if len(pool) == 1:
        pool.append(dict(pool[0], spec=dict(pool[0]["spec"], seed=G.rs(rng))))
    ops = [[G.ri(rng, 0, 6), G.pick(rng, OPS)] for _ in range(G.ri(rng, 4, 12))]
    return {"pool": pool, "ops": ops, "seed": G.rs(rng), "order": G.pick(rng, ["plain", "reverse"]), "opt": G.pick(rng, ["sgd", "adam"])}


OPS = ["train", "train", "train", "eval", "set", "map", "load", "load", "copy", "fail", "cast", "mode", "freeze", "zero", "inplace",
       "buffers", "reset", "del", "thread", "lambda"]


class Map(torch.nn.Module):
    def __init__(self, d, dtype, v):
        super().__init__()
        self.a = torch.nn.Parameter(torch.linspace(0.3, 1.2, d).to(dtype) * v)

    def forward(self, x):
        return torch.cos(self.a * x)


class Member:
    def __init__(self, e, domain=None, share=None):
        self.kind, s = e["kind"], dict(e["spec"])
        self.s = dict(s)
        self.emb = None
        if self.kind == "prob":
            if share is not None:
                self.s["emb"] = s["emb"] = share.s["emb"]
            self.model, self.emb = G.build_prob(s, domain, share and share.emb)
        elif self.kind == "ti":
            self.model = G.build_ti(s)
        else:
            self.model = G.build_mps(s)
        self.dtype = s["dtype"]
        self.opt = None
        self.key = repr(sorted((k, repr(v)) for k, v in s.items() if k not in ("seed", "dist", "emb")) + [repr(
            {k: v for k, v in (s.get("emb") or {}).items() if k != "seed"})])
        self.mapped = False
        self.points = None  # number of integration points if not the default

    def feed(self, rng, batch):
        s = dict(self.s, dtype=self.dtype)
        if self.kind == "prob":
            return G.prob_input(s, rng, batch, self.emb)[0]
        n = 3 if self.kind == "ti" else s.get("width", s["n"])
        raw = s["d"] == 2 and rng.random() < 0.5
        return torch.tensor(rng.uniform(size=(batch, n) if raw else (batch, n, s["d"]))).to(G.F[self.dtype])


def quiet(f):
    try:
        return f()
    except RuntimeError as e:
        if "cutoff" in str(e):
            return None
        raise


def snap(m, probe):
    """State and behaviour of a member (on a copy, so that nothing is counted)."""
    model = m.model
    st = mon.state(model)
    st["#grad"] = tuple((k, None if p.grad is None else (id(p.grad), mon.bits(p.grad))) for k, p in model.named_parameters())
    st["#path"] = repr(getattr(model, "path", None))
    st["#map"] = id(getattr(model, "feature_map", None))
    st["#modes"] = tuple(x.training for x in model.modules())
    for k in ("input_dim", "output_dim", "bond_dim", "feature_dim", "label_site", "periodic_bc", "adaptive_mode", "seq_len", "use_bias"):
        if hasattr(model, k):
            st["#" + k] = repr(getattr(model, k))
    with torch.no_grad():
        try:
            out = quiet(lambda: copy.deepcopy(model)(probe))
        except Exception as e:
            if probe is None:
                raise
            out = f"{type(e).__name__}"
    return st, out


def stores(m):
    """Storages of every tensor of a member: pointer -> name"""
    out = {}
    model = m.model
    seen = {}
    for k, t in list(model.named_parameters()) + list(model.named_buffers()):
        if t.numel():
            seen.setdefault(id(t), (k, t))
    for k, t in list(seen.values()):
        out.setdefault(t.untyped_storage().data_ptr(), []).append(k)
        if t.grad is not None and t.grad.numel():
            out.setdefault(t.grad.untyped_storage().data_ptr(), []).append(k + ".grad")
    return out


def check_memory(pool, obs):
    owner, modules = {}, {}
    for i, m in enumerate(pool):
        for k, x in m.model.named_modules():
            j = modules.setdefault(id(x), (i, k))
            need(j[0] == i, "two models have a module in common", one=j, other=(i, k), kind=m.kind)
    for i, m in enumerate(pool):
        for ptr, names in stores(m).items():
            if len(names) > 1:
                fail("two tensors of one model share memory", names=names, kind=m.kind)
            if ptr in owner:
                fail("tensors of two models share memory", one=owner[ptr], other=(i, names), kinds=(pool[owner[ptr][0]].kind, m.kind))
            owner[ptr] = (i, names)
            obs.hit("storages")


def same(a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and (not isinstance(a, str) or a == b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if mon.bits(a) == mon.bits(b):
        return True
    x, y = refs.wide(a), refs.wide(b)
    eps = 2.0**-23 if a.dtype in (torch.float32, torch.complex64) else 2.0**-52
    ok = (np.abs(x - y) <= 64 * eps * (1 + np.abs(x[np.isfinite(x)]).max(initial=0))) | (x == y) | (np.isnan(x) & np.isnan(y))
    return bool(ok.all())


def train(m, c, rng):
    model = m.model
    if m.opt is None:
        ps = list(model.parameters())
        m.opt = torch.optim.SGD(ps, lr=0.05) if c["opt"] == "sgd" else torch.optim.Adam(ps, lr=0.02)
    if not any(p.requires_grad for p in model.parameters()):
        return
    t = m.feed(rng, 3)

    def loss():
        v = -model(t).mean() if m.kind == "prob" else (model(t) ** 2).mean()
        return v if v.requires_grad else torch.tensor(float("inf"))  # nothing to train

    quiet(lambda: G.train_steps(model, m.opt, loss, 2))


def relambda(m):
    torch.set_default_dtype(G.F[m.s["dtype"]])
    try:
        m.model.embedding.make_lambda(*([] if m.points is None else [m.points]))
    finally:
        torch.set_default_dtype(torch.float32)


def apply(pool, m, op, c, rng, obs):
    """Operation on member m; returns members that may have changed."""
    model = m.model
    if op == "train":
        train(m, c, rng)
    elif op == "thread":
        import threading

        err = []

        def work():
            try:
                train(m, c, rng)
            except BaseException as e:
                err.append(e)

        t = threading.Thread(target=work)
        t.start()
        t.join()
        if err:
            raise err[0]
    elif op == "eval":
        with torch.no_grad():
            kw = {}
            if m.kind == "prob":
                kw = dict(parallel_eval=bool(rng.random() < 0.5))
                if not m.s["bias"]:
                    kw["slim_eval"] = bool(rng.random() < 0.5)
            quiet(lambda: model(m.feed(rng, G.ri(rng, 1, 4)), **kw))
    elif op == "set":
        G.set_params(model, "normal", rng) if m.kind == "prob" else G.set_net_params(model, "normal", rng)
    elif op == "inplace":
        with torch.no_grad():
            for p in model.parameters():
                p.mul_(0.7).add_(0.01)
    elif op == "buffers":
        with torch.no_grad():
            for p in model.buffers():
                if p.is_floating_point() and p.numel():
                    p.mul_(1.5)
    elif op == "map" and m.kind != "prob":
        model.register_feature_map(Map(m.s["d"], G.F[m.dtype], rng.uniform(0.5, 1.5)) if rng.random() < 0.7 else None)
        m.mapped = True
        m.opt = None
    elif op == "load":
        others = [x for x in pool if x is not m and x.key == m.key and x.dtype == m.dtype and not (x.mapped or m.mapped)]
        if others:
            x = others[int(rng.integers(len(others)))]
            sd = x.model.state_dict()
            if rng.random() < 0.3:
                buf = io.BytesIO()
                torch.save(sd, buf)
                buf.seek(0)
                sd = torch.load(buf)
            before = {k: mon.bits(v) for k, v in sd.items()}
            model.load_state_dict(sd)
            need(before == {k: mon.bits(v) for k, v in sd.items()}, "loading a state dictionary changes it")
            obs.hit("loads")
    elif op == "copy" and len(pool) < 7:
        x = copy.copy(m)
        x.model = copy.deepcopy(model)
        x.opt = None
        pool.append(x)
        obs.hit("copies")
    elif op == "fail":
        try:
            model(torch.zeros(2, 91, 7, 3))
        except Exception:
            pass
    elif op == "cast" and m.dtype == "f32" and not m.s.get("emb"):
        if m.kind != "prob":
            m.model = model.double()
        else:
            m.model = model.to(torch.complex128 if m.s["cplx"] else torch.float64)
        m.dtype = "f64"
        m.opt = None
    elif op == "lambda":
        if m.emb is not None and not m.emb.trainable and m.emb.cont:
            m.points = G.pick(rng, [2, 3, 17, None])
            relambda(m)
            obs.hit("remade")
    elif op == "mode":
        model.train(not model.training)
    elif op == "freeze":
        model.requires_grad_(rng.random() < 0.5)
    elif op == "zero":
        model.zero_grad(set_to_none=bool(rng.random() < 0.5))
    elif op == "reset":
        # another model of the same configuration is built
        Member({"kind": m.kind, "spec": m.s})
    elif op == "del" and len(pool) > 2:
        pool.remove(m)


def build_args(c, pool, obs):
    """Arguments given to constructors are not altered."""
    import torchmps
    from torchmps import embeddings as E

    for m in pool:
        s = m.s
        if m.kind in ("mps", "ada") and s["path"] is not None:
            path = torch.tensor(s["path"]) if s.get("path_tensor") else list(s["path"])
            keep = copy.deepcopy(path)
            a = torchmps.MPS(s["n"], s["o"], s["D"], path=path, feature_dim=s["d"])
            with torch.no_grad():
                a(torch.zeros(2, s.get("width", s["n"]), s["d"]))
            need(type(path) is type(keep) and [int(i) for i in path] == [int(i) for i in keep], "the path given is altered")
            obs.hit("arguments")
    hidden = [3, 4]
    E.init_mlp_embed(2, 3, hidden)
    need(hidden == [3, 4], "the list of hidden sizes is altered", got=hidden)


def run(c, obs):
    rng = np.random.default_rng(c["seed"])
    entries = c["pool"] if c["order"] == "plain" else c["pool"][::-1]
    pool, probes = [], {}
    for e in entries:
        before = [(m, snap(m, probes[id(m)])) for m in pool]
        twin = [x for x in pool if x.emb is not None and e["spec"].get("emb") and all(
            x.emb.spec.get(k) == e["spec"]["emb"].get(k) for k in ("cont", "lo", "hi", "size"))]
        alike = [x for x in twin if x.emb.obj is None and not e["spec"]["emb"].get("wrapped") and x.s["dtype"] == e["spec"]["dtype"]
                 and {k: v for k, v in x.s["emb"].items() if k != "seed"} == {k: v for k, v in e["spec"]["emb"].items() if k != "seed"}
                 and x.s["d"] == e["spec"]["d"]]
        share = alike[0] if alike and c["seed"] % 3 else None
        m = Member(e, twin[0].emb.domain if twin and c["seed"] % 2 else None, share)
        obs.hit("shared_domains", bool(twin and c["seed"] % 2))
        obs.hit("shared_functions", bool(share))
        probes[id(m)] = m.feed(np.random.default_rng(5), 2)
        for x, (st, out) in before:
            st2, out2 = snap(x, probes[id(x)])
            need(st == st2 and same(out, out2), "building a model changes another", what=mon.diff(st, st2), kinds=(m.kind, x.kind))
        pool.append(m)
    build_args(c, pool, obs)
    check_memory(pool, obs)
    done = 0
    for i, op in c["ops"]:
        m = pool[i % len(pool)]
        before = {id(x): (x, snap(x, probes[id(x)])) for x in pool if x is not m}
        size = len(pool)
        apply(pool, m, op, c, rng, obs)
        for x in pool:
            if id(x) not in probes:  # a copy: same probe as the original
                probes[id(x)] = probes[id(m)]
                a, b = snap(m, probes[id(m)]), snap(x, probes[id(x)])
                need(same(a[1], b[1]), "a copy gives other outputs")
        for x, (st, out) in before.values():
            st2, out2 = snap(x, probes[id(x)])
            need(st == st2, "an operation on one model changes another", op=op, what=mon.diff(st, st2), kinds=(m.kind, x.kind))
            need(same(out, out2), "an operation on one model changes the outputs of another", op=op, kinds=(m.kind, x.kind))
            obs.hit("bystanders")
        if op == "cast":
            probes[id(m)] = m.feed(np.random.default_rng(5), 2)
        check_memory(pool, obs)
        obs.hit("op_" + op)
        done += 1
        obs.state(m.kind, op, len(pool), len({x.key for x in pool}))
    for m in pool:
        if m.points is not None:
            m.points = None
            relambda(m)
        if m.kind == "prob" and not any(p.isnan().any() for p in m.model.parameters()):
            s = dict(m.s, dtype=m.dtype)
            module = m.model.embedding.emb_module if m.emb is not None and m.emb.trainable else None
            try:
                ref = G.ProbRef(m.model, s, m.emb, module)
                if ref.usable:
                    t, w = G.prob_input(s, rng, 3, m.emb)
                    with torch.no_grad():
                        ref.check(m.model(t), t, w)
                    obs.hit("exact_at_the_end")
            except Skip:
                pass
    obs.hit("pools")
    if len(pool) >= 3 and done >= 6:
        obs.nontrivial(c["seed"])
