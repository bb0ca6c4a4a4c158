"""C22: evaluation is pure and deterministic; a failing call changes nothing."""
import copy

import numpy as np
import torch

from rtm import gen as G
from rtm import mon, refs
from rtm.core import Skip, fail, need

CASES = {"quick": 1600, "thorough": 20000}
RULE = ("models of every class and option (adaptive ones before, at and after due changes) and the contraction functions "
        "are evaluated under a monitor which snapshots bitwise all parameters, buffers, lists, gradients, inputs (of plain, "
        "strided, expanded and leaf layouts) and the global random, gradient and type state, and compares a repeated "
        "evaluation and the gradients of an earlier result; then calls are made to fail (malformed inputs, feature map or "
        "embedding raising at its k-th call, decomposition failing at its k-th call, cutoff too large, faults at the "
        "k-th tensor operation of an ordinary evaluation) and the model must have the same state and give, over a "
        "whole further sequence of calls, the same outputs as a copy taken before; non-trivial if a fault took effect")
MIN = {"continued_histories": 616, "failed_at_due_change": 435, "failed_calls": 1475, "failed_cutoff": 95,
       "failed_embed": 17, "failed_input": 572, "failed_map": 154, "failed_op": 515, "failed_svd": 102,
       "fn_broadcast": 7, "fn_embed": 7, "fn_lamb": 5, "fn_matseq": 6, "fn_slices": 6,
       "fn_slim": 8, "fn_svd": 6, "function_calls": 180, "functions_failed": 240, "late_gradients": 905,
       "layout_expand": 327, "layout_leaf": 294, "layout_plain": 308, "layout_strided": 329,
       "operations_watched": 139423, "pure_calls": 2520, "trained_after_failure": 440}
KINDS = ["prob", "prob", "net", "ada", "ada", "ada", "ti", "func"]


def gen(rng, tier, idx):
    kind = KINDS[idx % len(KINDS)]
    c = {"kind": kind, "seed": G.rs(rng), "layout": G.pick(rng, ["plain", "strided", "leaf", "expand"]),
         "nograd": bool(rng.random() < 0.3), "eval": bool(rng.random() < 0.3)}
    if kind == "prob":
        c["spec"] = G.prob_spec(rng, nmax=6)
        c["spec"]["n"] = max(1, c["spec"]["n"])
        c["spec"]["inp"] = G.pick(rng, ["sym", "vec", "prob"])
        if c["spec"]["emb"]:
            c["spec"]["emb"]["hook"] = True
        c["faults"] = [G.pick(rng, ["input", "embed", "op", "op"]) for _ in range(3)]
    elif kind == "net":
        c["spec"] = G.mps_spec(rng, adaptive=False)
        c["faults"] = [G.pick(rng, ["input", "map", "op", "op"]) for _ in range(3)]
    elif kind == "ada":
        c["spec"] = G.mps_spec(rng, adaptive=True)
        c["spec"]["thresh"] = G.pick(rng, [1, 2, 3, 5])
        c["faults"] = [G.pick(rng, ["input", "input", "map", "svd", "svd", "cutoff", "op"]) for _ in range(4)]
    elif kind == "ti":
        c["spec"] = G.ti_spec(rng)
        c["faults"] = [G.pick(rng, ["input", "map", "op"]) for _ in range(3)]
    else:
        c.update(fn=G.pick(rng, ["matseq", "slices", "slim", "norm", "svd", "broadcast", "embed", "lamb"]),
                 dt=G.pick(rng, ["f32", "f64", "c64"]), n=G.ri(rng, 1, 5), D=G.ri(rng, 1, 4), d=G.ri(rng, 1, 4))
    return c


# ------------------------------------------------------------------ helpers


class Boom(Exception):
    """Raised by user code given to the library."""


class Map(torch.nn.Module):
    """Feature map with parameters which fails on demand."""

    def __init__(self, d, dtype):
        super().__init__()
        self.a = torch.nn.Parameter(torch.linspace(0.3, 1.2, d).to(dtype))
        self.left = None

    def forward(self, x):
        if self.left is not None:
            self.left -= 1
            if self.left <= 0:
                raise Boom("feature map failed")
        return torch.cos(self.a * x)


def lay(c, t):
    """The same values in another memory layout."""
    if c["layout"] == "strided" and t.ndim > 1:
        t = t.transpose(0, 1).contiguous().transpose(0, 1)
    elif c["layout"] == "leaf" and (t.is_floating_point() or t.is_complex()) and t.numel():
        t = t.clone().requires_grad_(True)
    elif c["layout"] == "expand" and t.numel():
        t = t[:1].expand(t.shape)
    return t


def snap(t):
    if isinstance(t, (list, tuple)):
        return [type(t), [id(x) for x in t], [snap(x) for x in t]]
    return [mon.bits(t), tuple(t.stride()), t.requires_grad, t.is_leaf, None if t.grad is None else mon.bits(t.grad)]


def grads_of(model):
    return {k: (id(p.grad), mon.bits(p.grad)) if p.grad is not None else None for k, p in model.named_parameters()}


def pure_state(model):
    st = mon.state(model)
    st.pop("#counter", None)  # counting the inputs is what adaptive models are for
    path = getattr(model, "path", None)
    st["#path"] = repr(path)
    st["#hooks"] = (len(model._forward_hooks), len(model._parameters), len(model._buffers))
    emb = getattr(model, "embedding", None)
    if emb is not None:
        l = emb.lamb_mat
        st["#lamb"] = mon.bits(l.detach()) if isinstance(l, torch.Tensor) else repr(l)
    return st


def same_out(a, b, what):
    if isinstance(a, str) or isinstance(b, str):
        need(a == b, what, first=a if isinstance(a, str) else "result", second=b if isinstance(b, str) else "result")
        return
    if mon.bits(a) == mon.bits(b):
        return
    need(a.shape == b.shape and a.dtype == b.dtype, what, first=(a.shape, a.dtype), second=(b.shape, b.dtype))
    x, y = refs.wide(a), refs.wide(b)
    eps = 2.0**-23 if a.dtype in (torch.float32, torch.complex64) else 2.0**-52
    fin = np.isfinite(x) & np.isfinite(y)
    need((fin | (x == y) | (np.isnan(x) & np.isnan(y))).all(), what)
    need((np.abs(x[fin] - y[fin]) <= 64 * eps * (1 + np.abs(x[fin]).max(initial=0))).all(), what, first=x, second=y)


def build(c):
    s = c["spec"]
    emb = fmap = None
    if c["kind"] == "prob":
        model, emb = G.build_prob(s)
    elif c["kind"] == "ti":
        model = G.build_ti(s)
    else:
        model = G.build_mps(s)
    if "map" in c["faults"]:
        fmap = Map(s["d"], G.F[s["dtype"]])
        model.register_feature_map(fmap)
    return model, emb, fmap


def an_input(c, rng, emb, fmap, batch=None, raw=None):
    s = c["spec"]
    batch = batch or G.pick(rng, [1, 2, 3])
    if c["kind"] == "prob":
        return G.prob_input(s, rng, batch, emb)[0]
    width = s.get("width", s.get("n", 0))
    if c["kind"] == "ti":
        width = G.ri(rng, 1, 5)
    if raw is None:
        raw = (s["d"] == 2 or fmap is not None) and rng.random() < 0.6
    v = rng.uniform(size=(batch, width)) if raw else rng.normal(size=(batch, width, s["d"]))
    t = torch.tensor(v).to(G.F[s["dtype"]])
    if c["kind"] == "ti" and rng.random() < 0.4:
        return [x.clone() for x in t]
    return t


def options(c, rng):
    if c["kind"] != "prob":
        return {}
    return {"slim_eval": bool(rng.random() < 0.4) and not c["spec"]["bias"], "parallel_eval": bool(rng.random() < 0.4)}


def call(model, x, kw):
    """Output, or the name of an expected complaint."""
    try:
        return model(x, **kw)
    except AssertionError:
        return "AssertionError"  # vanishing norm
    except RuntimeError as e:
        if "cutoff" in str(e):
            return "cutoff"
        raise


def future(model, xs):
    """Outputs of a copy over a sequence of calls (adaptive models change their merge state meanwhile)."""
    m = copy.deepcopy(model)
    out = []
    with torch.no_grad():
        for x, kw in xs:
            o = call(m, x, kw)
            out.append(o)
    return out, mon.state(m)


# ------------------------------------------------------------------ models


def run(c, obs):
    rng = np.random.default_rng(c["seed"])
    if c["kind"] == "func":
        return functions(c, rng, obs)
    model, emb, fmap = build(c)
    if c["eval"]:
        model.eval()
    if c["seed"] % 3 == 0:
        # parts of the model in another mode
        for k, m in model.named_modules():
            if k and not k.startswith("linear_region") and rng.random() < 0.7:
                m.train(not m.training)
    ada = c["kind"] == "ada"
    if ada:
        # plain evaluations first: no change may be due
        model.linear_region.merge_threshold = 10**9
    for k, p in model.named_parameters():
        if rng.random() < 0.5:
            p.grad = torch.tensor(rng.normal(size=tuple(p.shape))).to(p.dtype)
    for _ in range(2):
        purity(c, rng, model, emb, fmap, obs)
    if ada:
        model.linear_region.merge_threshold = c["spec"]["thresh"]
        model.linear_region.input_counter = 0
    effects = 0
    for f in c["faults"]:
        if ada:
            for _ in range(G.ri(rng, 0, 2)):
                with torch.no_grad():
                    call(model, an_input(c, rng, emb, fmap), {})
        effects += faulty(c, rng, model, emb, fmap, f, obs)
    obs.state(c["kind"], c["layout"], *[str(v) for k, v in sorted(c["spec"].items()) if k != "seed"], str(c["faults"]))
    if effects:
        obs.nontrivial(c["seed"])


def purity(c, rng, model, emb, fmap, obs):
    x = an_input(c, rng, emb, fmap)
    x = [lay(dict(c, layout="plain" if c["layout"] == "expand" else c["layout"]), t) for t in x] if isinstance(x, list) else lay(c, x)
    kw = options(c, rng)
    leaves = x if isinstance(x, list) else [x]
    for t in leaves:
        if t.requires_grad:
            t.grad = torch.ones_like(t)
    st, gr, xs, w = pure_state(model), grads_of(model), snap(x), mon.world()
    with torch.set_grad_enabled(not c["nograd"]):
        w = mon.world()
        watch = mon.OpWatch()
        with watch:
            a = call(model, x, kw)
        b = call(model, x, kw)
        w2 = mon.world()
    if c["kind"] == "prob" and not isinstance(a, str):
        with torch.set_grad_enabled(not c["nograd"]):
            model.loss(x, **kw)
            model.log_norm() if c["spec"]["kind"] == "fixed" else model.log_norm(c["spec"]["n"])
            w2 = mon.world() if not mon.diff(w, w2) else w2
    d = mon.diff(w, w2)
    need(not d, "evaluation changed global state", what=d)
    d = mon.diff(st, pure_state(model))
    need(not d, "evaluation changed the model", what=d)
    need(gr == grads_of(model), "evaluation changed gradients of the parameters")
    need(xs == snap(x), "evaluation changed its input")
    same_out(a, b, "two evaluations of the same input differ")
    obs.hit("pure_calls", 2)
    obs.hit("operations_watched", watch.n)
    obs.hit("layout_" + c["layout"])
    # an earlier result can still be differentiated after further evaluations
    if not c["nograd"] and not isinstance(a, str) and a.requires_grad:
        loss = lambda o: (torch.where(torch.isfinite(o), o, torch.zeros_like(o)) * 0.5).sum()
        fresh = call(model, x, kw)
        ps = [p for p in model.parameters() if p.requires_grad]
        g1 = torch.autograd.grad(loss(fresh), ps, allow_unused=True)
        call(model, an_input(c, rng, emb, fmap), kw)
        g2 = torch.autograd.grad(loss(a), ps, allow_unused=True)
        for p, u, v in zip(ps, g1, g2):
            need((u is None) == (v is None), "gradients differ between equal evaluations")
            if u is not None:
                same_out(u, v, "gradients differ between equal evaluations")
        obs.hit("late_gradients")


def bad_inputs(c, rng, emb, fmap, model):
    """Inputs which no model of this configuration can take."""
    s = c["spec"]
    dt = G.F[s["dtype"]]
    B = G.pick(rng, [1, 2])
    out = [torch.zeros(B, dtype=dt), None, "abc", torch.zeros(B, 2, 3, 2, dtype=dt)]
    if c["kind"] == "prob":
        n, d = s["n"], s["d"]
        if s["kind"] == "fixed":
            out += [torch.zeros(B, n + 1, dtype=torch.long), torch.zeros(B, n + 1, d, dtype=dt)]
        if emb is None:
            out += [torch.zeros(B, n, d + 1, dtype=dt), torch.full((B, n), d, dtype=torch.long), torch.zeros(B, n, dtype=dt)]
    elif c["kind"] == "ti":
        d = s["d"]
        out += [torch.zeros(B, 3, d + 1, dtype=dt), [torch.zeros(2, dtype=dt), torch.zeros(2, d, dtype=dt)],
                [torch.zeros(3, d, dtype=dt), torch.zeros(3, d + 1, dtype=dt)]]
    else:
        n, d, width = s["n"], s["d"], s.get("width", s["n"])
        out += [torch.zeros(B, width, d + 1, dtype=dt), torch.full((B, width, d), 0.5, dtype=torch.complex64),
                torch.zeros(B, width, d, dtype=torch.float16)]
        if s.get("path") is None:
            out += [torch.zeros(B, n + 1, dtype=dt), torch.zeros(B, n + 1, d, dtype=dt)]
        elif max(s["path"]) > 0:
            out += [torch.zeros(B, max(s["path"]), dtype=dt)]
        if d != 2 and fmap is None:
            out += [torch.zeros(B, width, dtype=dt)]
    return out


def faulty(c, rng, model, emb, fmap, f, obs):
    s = c["spec"]
    kw = options(c, rng)
    probes = [(an_input(c, rng, emb, fmap, raw=None), options(c, rng)) for _ in range(5 if c["kind"] == "ada" else 2)]
    x = an_input(c, rng, emb, fmap)
    undo = []
    due = False
    if c["kind"] == "ada":
        r = model.linear_region
        due = r.input_counter >= r.merge_threshold
    if f == "cutoff":
        old = model.linear_region.cutoff
        undo.append(lambda: setattr(model.linear_region, "cutoff", old))
    before, before_state = future(model, probes)
    if f == "cutoff":
        model.linear_region.cutoff = 1e30
    st, gr, w = pure_state(model), grads_of(model), mon.world()
    counter = mon.state(model).get("#counter")
    ctx, failed = None, None
    if f == "input":
        bad = bad_inputs(c, rng, emb, fmap, model)
        x = bad[int(rng.integers(len(bad)))]
    elif f == "map":
        k = int(rng.integers(1, 5))
        fmap.left = k
        undo.append(lambda: setattr(fmap, "left", None))
    elif f == "embed":
        if emb is None:
            return 0
        k = [int(rng.integers(1, 3))]

        def boom(*a, **kk):
            k[0] -= 1
            if k[0] == 0:
                raise Boom("embedding failed")

        if emb.module is not None:
            h = emb.module.register_forward_pre_hook(boom)
            undo.append(h.remove)
        else:
            emb.hook = boom
            undo.append(lambda: setattr(emb, "hook", None))
    elif f == "svd":
        ctx = mon.FnFault("svd", int(rng.integers(1, 4)))
    elif f == "op":
        if due:
            f = "none"
        else:
            ctx = mon.OpWatch(fault_at=int(rng.integers(1, 60)))
    with torch.set_grad_enabled(not c["nograd"]):
        inside = mon.world()
        try:
            if ctx is not None:
                with ctx:
                    model(x, **kw)
            else:
                model(x, **kw)
        except Exception as e:
            failed = type(e).__name__
            del e
        inside = mon.diff(inside, mon.world())
    need(not inside, "a call changed global state", what=inside, fault=f, error=failed)
    for u in undo:
        u()
    if failed is None:
        # nothing went wrong (no change was due, or the fault came too late): the call counts
        obs.hit("fault_without_effect")
        return 0
    obs.hit("failed_calls")
    obs.hit("failed_" + f)
    if due:
        obs.hit("failed_at_due_change")
    d = mon.diff(w, mon.world())
    need(not d, "failing call changed global state", what=d, fault=f, error=failed)
    d = mon.diff(st, pure_state(model))
    need(not d, "failing call changed the model", what=d, fault=f, error=failed)
    need(gr == grads_of(model), "failing call changed gradients", fault=f, error=failed)
    need(mon.state(model).get("#counter") == counter, "failing call counted as input", fault=f, error=failed)
    after, after_state = future(model, probes)
    for i, (a, b) in enumerate(zip(before, after)):
        same_out(a, b, f"output {i} after a failing call differs (fault {f}, {failed})")
    if c["kind"] == "ada":
        for k in ("#offset", "#counter", "#bond_list"):
            need(before_state[k] == after_state[k], "course of merge-state changes altered by a failing call", what=k, fault=f)
        obs.hit("continued_histories")
    # it can still be trained
    if rng.random() < 0.3:
        m = copy.deepcopy(model)
        o = call(m, probes[0][0], kw)
        if not isinstance(o, str) and o.requires_grad:
            o = torch.where(torch.isfinite(o), o, torch.zeros_like(o))
            o.sum().backward()
            obs.hit("trained_after_failure")
    return 1


# ------------------------------------------------------------------ functions

DT = {"f32": torch.float32, "f64": torch.float64, "c64": torch.complex64}


def functions(c, rng, obs):
    from torchmps import embeddings as E
    from torchmps import mps_base as M
    from torchmps import utils, utils2

    dt, n, D, d = DT[c["dt"]], c["n"], c["D"], c["d"]

    def t(*shape):
        v = rng.normal(size=shape)
        if dt.is_complex:
            v = v + 1j * rng.normal(size=shape)
        return lay(c, torch.tensor(v).to(dt))

    fn = c["fn"]
    if fn == "matseq":
        same = rng.random() < 0.5
        ms = t(2, n, D, D) if same else [t(2, D, D) for _ in range(n)]
        L = t(D) if rng.random() < 0.6 else None
        R = t(2, D) if rng.random() < 0.6 else None
        args = [ms] + [v for v in (L, R) if v is not None]
        par, log = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
        f = lambda: M.contract_matseq(ms, L, R, par, log)
    elif fn in ("slices", "slim"):
        core = t(d, D, D) if rng.random() < 0.5 else t(n, d, D, D)
        x = torch.tensor(rng.integers(0, d, size=(2, n))) if rng.random() < 0.5 else t(2, n, d)
        bv = t(2, D)
        args = [core, x, bv]
        f = (lambda: M.get_mat_slices(x, core)) if fn == "slices" else (lambda: M.slim_eval_fun(x, core, bv))
    elif fn == "norm":
        core, bv = t(n, d, D, D), t(2, D)
        lam = torch.eye(d, dtype=dt) if rng.random() < 0.5 else None
        args = [core, bv] + ([lam] if lam is not None else [])
        f = lambda: M.get_log_norm(core, bv, lamb_mat=lam)
    elif fn == "svd":
        x = t(d, D, n)
        args = [x]
        maxD = int(rng.integers(1, 8)) if rng.random() < 0.5 else None
        f = lambda: utils.svd_flex(x, "abc->ax,bcx", max_D=maxD, cutoff=1e-12)
    elif fn == "broadcast":
        a, b = t(1, n, D), t(3, 1, D)
        args = [[a, b]]
        f = lambda: tuple(o.clone() for o in utils2.batch_broadcast(args[0], (1, 1)))
    elif fn == "embed":
        x = torch.tensor(rng.integers(0, d, size=(2, n)))
        y = torch.tensor(rng.uniform(size=(2, n)))
        args = [x, y]
        f = lambda: (E.onehot_embed(x, d), E.trig_embed(y, emb_dim=d), E.sincos_embed(y))
    else:
        tab = t(max(d, 2), d).detach()
        fixed = E.FixedEmbedding(lambda s: tab[s], E.DataDomain(continuous=False, max_val=max(d, 2)))
        x = torch.tensor(rng.integers(0, max(d, 2), size=(2, n)))
        args = [x, tab]
        f = lambda: (fixed(x), torch.as_tensor(fixed.lamb_mat).clone())
    for a in args:
        if isinstance(a, torch.Tensor) and a.requires_grad:
            a.grad = torch.ones_like(a)
    xs = [snap(a) for a in args]
    with torch.set_grad_enabled(not c["nograd"]):
        w = mon.world()
        a, b = f(), f()
        need(not mon.diff(w, mon.world()), "function changed global state", fn=fn, what=mon.diff(w, mon.world()))
    need(xs == [snap(v) for v in args], "function changed its arguments", fn=fn)
    # calls which fail
    def boom(*a):
        raise Boom("embedding failed")

    wrong = {
        "matseq": [lambda: M.contract_matseq(ms, t(D + 1), R, par, log), lambda: M.contract_matseq([t(D, D + 1), t(D, D)], None, None)],
        "slices": [lambda: M.get_mat_slices(x[:, :, None, None] if x.ndim == 2 else x[..., None], core), lambda: M.get_mat_slices(t(2, n, d + 1), core)],
        "slim": [lambda: M.slim_eval_fun(t(2, n, d + 1), core, bv), lambda: M.slim_eval_fun(x, core, t(2, D + 1)),
                 lambda: M.slim_eval_fun(torch.full((2, n), d), core, bv)],
        "norm": [lambda: M.get_log_norm(core, t(2, D + 1)), lambda: M.get_log_norm(core, bv, lamb_mat=torch.eye(d + 1, dtype=dt))],
        "svd": [lambda: utils.svd_flex(x, "abc->ax,bcx", cutoff=1e30), lambda: utils.svd_flex(x, "abc->ax,bcx", max_D=2, cutoff=1e30),
                lambda: utils.svd_flex(x, "abc->ax,bx"), lambda: utils.svd_flex(x, "abc->ax,bcx", max_D=3, sv_vec=torch.empty(7))],
        "broadcast": [lambda: utils2.batch_broadcast((t(2, D), t(3, D)), (1, 1)), lambda: utils2.batch_to(t(2, D), (3,), 1)],
        "embed": [lambda: E.onehot_embed(x + d, d), lambda: E.trig_embed("abc"), lambda: utils.onehot([d], d), lambda: utils.init_tensor([2, 2], "lr", "none")],
        "lamb": [lambda: E.FixedEmbedding(boom, E.DataDomain(continuous=True, min_val=0, max_val=1)), lambda: E.FixedEmbedding(torch.sin, E.DataDomain(continuous=False, max_val=3)),
                 lambda: E.DataDomain(continuous=True, min_val=2, max_val=1)],
    }[fn]
    for i, g in enumerate(wrong):
        with torch.set_grad_enabled(not c["nograd"]):
            w = mon.world()
            w.pop("numpy rng")  # arguments may be drawn here
            try:
                g()
            except Exception:
                obs.hit("functions_failed")
            w2 = mon.world()
            need(not (set(mon.diff(w, w2)) - {"numpy rng"}), "a failing function changed global state", fn=fn, which=i, what=mon.diff(w, w2))
    need(xs == [snap(v) for v in args], "a failing function changed its arguments", fn=fn)
    tup = lambda o: o if isinstance(o, tuple) else (o,)
    for u, v in zip(tup(a), tup(b)):
        if isinstance(u, torch.Tensor):
            same_out(u, v, f"two evaluations of {fn} differ")
    # results do not alias the arguments when they are products (in-place use of a result is common)
    obs.hit("function_calls", 2)
    obs.hit("fn_" + fn)
    obs.state("func", fn, c["dt"], n, D, d, c["layout"])
