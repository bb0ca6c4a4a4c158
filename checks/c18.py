"""C18: feature maps can be registered, replaced and reset at any time."""
import copy
import math

import numpy as np
import torch

from rtm import gen as G
from rtm import mon, refs
from rtm.core import fail, need

CASES = {"quick": 1800, "thorough": 20000}
RULE = ("random MPS (also adaptive, periodic, with path) or TI_MPS driven through 4-14 registrations of functions, "
        "modules, callable objects and None, refused registrations (wrong size, failing map), evaluations of raw and "
        "pre-embedded inputs, training of a registered module, copies; the monitor tracks the map in force, checks every "
        "output against the reference network on inputs embedded elementwise in NumPy, and that exactly the registered "
        "module's parameters belong to the model; non-trivial if at least two different maps were in force")
MIN = {"default_refused": 158, "embedded_evaluations": 583, "lists": 177, "map_edited": 320, "map_trained": 82,
       "module_members": 3219, "module_to_function": 166, "outputs_decided": 12530, "raw_evaluations": 1491,
       "refused": 835, "registrations": 1737, "resets": 285}


def gen(rng, tier, idx):
    ti = idx % 3 == 0
    s = G.ti_spec(rng) if ti else G.mps_spec(rng, nmax=5, Dmax=3)
    if not ti:
        s["thresh"] = G.pick(rng, [4, 10000])
    ops = ["fun", "fun", "mod", "mod", "obj", "none", "badsize", "badrank", "raise", "raw", "raw", "raw", "emb", "emb", "train", "train", "copy", "same", "edit", "edit"]
    k = G.ri(rng, 4, 14 if tier == "thorough" else 10)
    return {"spec": s, "seed": G.rs(rng), "ops": [G.pick(rng, ops) for _ in range(k)] + ["raw"]}


class ModMap(torch.nn.Module):
    def __init__(self, a, b):
        super().__init__()
        self.lin = torch.nn.Parameter(a)
        self.off = torch.nn.Parameter(b)

    def forward(self, x):
        return torch.cos(self.lin * x) + self.off


class ObjMap:
    def __init__(self, a):
        self.a = a

    def __call__(self, x):
        return self.a * (x - 0.5)


def make(kind, s, rng):
    """(library map, NumPy map)"""
    d, fdt = s["d"], G.F[s["dtype"]]
    if kind == "fun":
        k = G.pick(rng, ["poly", "trig", "const"])
        if k == "poly":
            return (lambda x: torch.stack([x.to(fdt) ** j for j in range(d)])), (lambda x: np.stack([x**j for j in range(d)], -1))
        if k == "trig":
            c = [float(v) for v in rng.normal(size=d)]
            return (lambda x: torch.stack([torch.sin(v * x.to(fdt)) for v in c])), (
                lambda x: np.stack([np.sin(v * x) for v in c], -1))
        c = torch.tensor(rng.normal(size=d)).to(fdt)
        return (lambda x: c + 0 * x), (lambda x: np.broadcast_to(refs.wide(c), x.shape + (d,)))
    if kind == "obj":
        a = torch.tensor(rng.normal(size=d)).to(fdt)
        return ObjMap(a), (lambda x: refs.wide(a) * (x[..., None] - 0.5))
    a, b = (torch.tensor(rng.normal(size=d)).to(fdt) for _ in range(2))
    m = ModMap(a, b)
    return m, (lambda x: np.cos(refs.wide(m.lin) * x[..., None]) + refs.wide(m.off))


def run(case, obs):
    s = case["spec"]
    rng = np.random.default_rng(case["seed"])
    ti = s["kind"] == "ti"
    model = G.build_ti(s) if ti else G.build_mps(s)
    base = {id(p) for p in model.parameters()}
    fdt, eps, d = G.F[s["dtype"]], G.eps_s(s), s["d"]
    default = lambda x: np.stack([x, 1 - x], -1)
    cur, ref, kinds, mods = None, default, set(), []
    for op in case["ops"]:
        if op in ("fun", "mod", "obj"):
            m, f = make(op, s, rng)
            obs.hit("module_to_function", int(isinstance(cur, torch.nn.Module) and op != "mod"))
            model.register_feature_map(m)
            cur, ref = m, f
            kinds.add(id(m))
            if op == "mod":
                mods.append(m)
            obs.hit("registrations")
        elif op == "same":  # registering the present map again
            model.register_feature_map(cur)
            obs.hit("registrations")
        elif op == "none":
            model.register_feature_map(None)
            cur, ref = None, default
            obs.hit("resets")
        elif op in ("badsize", "badrank", "raise"):
            before = mon.state(model)
            if op == "raise":
                def bad(x):
                    raise ZeroDivisionError("map failed")
            elif op == "badsize":
                k = G.pick(rng, [k for k in (d + 1, d - 1, 2 * d, 0) if k != d])
                bad = lambda x: torch.zeros(k, dtype=fdt)
                if rng.random() < 0.5:
                    a = torch.tensor(rng.normal(size=max(1, d + 1))).to(fdt)
                    bad = ModMap(a, a.clone())
            else:
                sh = G.pick(rng, [(1, d), (d, 1), ()])
                bad = lambda x: torch.zeros(sh, dtype=fdt)
            try:
                model.register_feature_map(bad)
            except Exception:
                obs.hit("refused")
            else:
                fail("a feature map of the wrong output size was accepted", kind=op)
            need(not mon.diff(before, mon.state(model)), "a refused feature map changed the model", what=mon.diff(before, mon.state(model)))
        elif op == "train":
            if isinstance(cur, torch.nn.Module):
                opt = torch.optim.SGD(model.parameters(), lr=0.05)
                t, _ = inputs(s, rng, 2, raw=True)
                o = call(model, t, s)
                if o is None:
                    continue
                loss = (o - 1).pow(2).mean()
                if torch.isfinite(loss) and loss.requires_grad and o.numel():
                    old = cur.lin.detach().clone(), cur.off.detach().clone()
                    loss.backward()
                    torch.nn.utils.clip_grad_norm_(model.parameters(), 1.0)
                    g = cur.lin.grad
                    if g is not None and g.abs().max() > 1e-3:
                        opt.step()
                        need(not torch.equal(old[0], cur.lin.detach()), "training the model did not train its feature map")
                        obs.hit("map_trained")
                    opt.zero_grad(set_to_none=True)
        elif op == "edit":
            # the map in force changes between two evaluations of the same values
            t, x = inputs(s, rng, 2, raw=True, lst=ti and rng.random() < 0.4)
            ps = [cur.lin, cur.off] if isinstance(cur, ModMap) else [cur.a] if isinstance(cur, ObjMap) else []
            grad = bool(rng.random() < 0.4)
            for k in range(2 if ps else 0):
                with torch.set_grad_enabled(grad):
                    o = call(model, t, s)
                if o is None:
                    return
                judge(model, s, o, ref(x), obs, "output before and after a change of the map")
                for p in ps:
                    G.put(p, torch.tensor(rng.normal(size=tuple(p.shape))))
                obs.hit("map_edited")
        elif op == "copy":
            model2 = copy.deepcopy(model)
            t, x = inputs(s, rng, 2, raw=True)
            if cur is not None or d == 2:
                o = call(model2, t, s)
                if o is not None:
                    judge(model2, s, o, ref(x), obs, "output of a copy")
        # membership
        names = {id(p): k for k, p in model.named_parameters()}
        own = {id(p) for p in model.parameters()} - base
        want = {id(p) for p in cur.parameters()} if isinstance(cur, torch.nn.Module) else set()
        need(own == want, "parameters of the feature map and of the model do not agree", after=op,
             extra=len(own - want), missing=len(want - own))
        need(base <= {id(p) for p in model.parameters()}, "the model lost parameters")
        for p in (cur.parameters() if isinstance(cur, torch.nn.Module) else ()):
            need(names[id(p)] in model.state_dict(), "parameter of the feature map is not in the state dictionary")
            obs.hit("module_members")
        if op == "raw":
            t, x = inputs(s, rng, G.pick(rng, [1, 2, 3]), raw=True, lst=ti and rng.random() < 0.4)
            if cur is None and d != 2:
                try:
                    model(t)
                except Exception:
                    obs.hit("default_refused")
                else:
                    fail("raw inputs accepted although the default map does not fit", d=d)
                continue
            o = call(model, t, s)
            if o is None:
                return
            obs.hit("raw_evaluations")
            obs.hit("lists", int(isinstance(t, list)))
            judge(model, s, o, ref(x), obs, "output for raw inputs")
        elif op == "emb":
            t, x = inputs(s, rng, 2, raw=False)
            o = call(model, t, s)
            if o is None:
                return
            obs.hit("embedded_evaluations")
            judge(model, s, o, x, obs, "output for pre-embedded inputs")
    obs.state(s["kind"], s["d"], str(s.get("path") is not None), s.get("adaptive"), str(case["ops"]))
    if len(kinds) > 1:
        obs.nontrivial(case["seed"])


def inputs(s, rng, batch, raw, lst=False):
    """(what is fed, wide array in chain order before embedding)"""
    fdt = G.F[s["dtype"]]
    width = s.get("width", s["n"]) if s["kind"] == "mps" else G.ri(rng, 1, 4)
    shape = (batch, width) if raw else (batch, width, s["d"])
    t = torch.tensor(rng.uniform(-1, 1, size=shape)).to(fdt)
    x = refs.wide(t)
    if s.get("path") is not None:
        x = x[:, s["path"]]
    if lst:
        return [r.clone() for r in t], x
    return t, x


def call(model, t, s):
    try:
        return model(t)
    except RuntimeError as e:
        if s.get("adaptive") and "cutoff" in str(e):
            return None
        raise


def judge(model, s, out, w, obs, what):
    if s["kind"] == "ti":
        ref, err = G.ti_ref(model, s, w)
        _, big = G.ti_ref(model, s, np.abs(w))
    else:
        ref, err = G.mps_ref(model, s, w)
        _, big = G.mps_ref(model, s, np.abs(w))
    n = w.shape[1]
    # rounding of the map itself: each embedded vector is off by a few eps of its largest entry
    fat = np.abs(w) + 8 * G.eps_s(s) * (1 + np.abs(w).max(initial=0))
    if s["kind"] == "ti":
        core, bias = refs.wide(model.core_tensor), refs.wide(model.bias_mat).reshape(model.core_tensor.shape[:2]) if s["bias"] else 0
        extra = change(lambda v: np.einsum("bl,lo->bo", runabs(np.abs(core), np.abs(bias), np.abs(refs.wide(model.init_vector.vec)), v),
                                           np.abs(refs.wide(model.terminal_mat.mat))), np.abs(w), fat)
    else:
        nodes = [(k, c.detach().abs(), e.detach().abs() if isinstance(e, torch.Tensor) else e) for k, c, e in G.net_nodes(model)]
        extra = change(lambda v: G.net_eval(nodes, v, s["pbc"], G.eps_s(s))[0], np.abs(w), fat)
    G.check_out(out, ref, err + 2 * np.abs(extra), what, obs)


def change(f, a, b):
    return f(b) - f(a)


def runabs(core, bias, vec, w):
    v = np.broadcast_to(vec, (w.shape[0], len(vec)))
    for k in range(w.shape[1]):
        m = np.einsum("lri,bi->blr", core, w[:, k]) + bias
        v = np.einsum("bl,blr->br", v, m)
    return v
