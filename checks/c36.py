"""C36: models work as parts of larger PyTorch programs."""
import copy
import io

import numpy as np
import torch
from torch.func import functional_call

from rtm import gen as G
from rtm import mon, refs
from rtm.core import Skip, fail, need

CASES = {"quick": 1500, "thorough": 10000}
RULE = ("one or two models of any class are put into a parent module at a random depth, between other layers (elementwise "
        "scaling before, linear after), and the parent is trained, evaluated in every gradient mode, cast to other modes, "
        "partly frozen, saved and restored with its own state dictionary, copied, called twice in one graph, called with "
        "substituted parameters; copies of the models used alone by explicit calls follow the same history; outputs, "
        "gradients, parameters after each optimizer step and merge states are compared; non-trivial with at least four "
        "operations of three kinds")
MIN = {"accumulations": 166, "changes_compared": 79, "copies": 255, "double_calls": 182, "freezes": 272,
       "gradients": 7612, "histories": 675, "moves": 251, "operations": 4054, "optimizer_steps": 742,
       "outputs": 994, "partial_gradients": 529, "restored": 264, "slopes": 288,
       "states_compared": 4729, "substitutions": 144}
OPS = ["train", "train", "train", "eval", "infer", "restore", "copy", "freeze", "twice", "functional", "accumulate", "mode", "partial",
       "move", "slope", "slope"]


def gen(rng, tier, idx):
    models = []
    for _ in range(G.pick(rng, [1, 1, 2])):
        k = G.pick(rng, ["prob", "mps", "ada", "ada", "ti"])
        if k == "prob":
            s = G.prob_spec(rng, nmax=5)
            s["n"] = max(1, s["n"])
            s["inp"] = G.pick(rng, ["sym", "vec", "vec"])
            if s["dist"] in ("sparse", "scaled"):
                s["dist"] = "normal"
        elif k == "ti":
            s = G.ti_spec(rng)
        else:
            s = G.mps_spec(rng, nmax=5, adaptive=k == "ada")
            s["thresh"] = G.pick(rng, [3, 5, 8, 8, 2000])
        s["dtype"] = G.pick(rng, ["f32", "f64", "f64", "f64"])
        models.append({"kind": k, "spec": s, "depth": G.ri(rng, 0, 2), "name": G.pick(rng, ["a", "mps", "linear_region", "0"])})
    return {"models": models, "ops": [G.pick(rng, OPS) for _ in range(G.ri(rng, 3, 9))], "seed": G.rs(rng),
            "opt": G.pick(rng, ["sgd", "adam"])}


class Pre(torch.nn.Module):
    def __init__(self, d, dtype):
        super().__init__()
        self.a = torch.nn.Parameter((torch.linspace(0.8, 1.2, d)).to(dtype))

    def forward(self, x):
        return x * self.a if x.is_floating_point() and x.ndim == 3 else x


class Post(torch.nn.Module):
    def __init__(self, o, dtype):
        super().__init__()
        self.w = torch.nn.Parameter(torch.linspace(-0.7, 1.1, o).to(dtype))

    def forward(self, y):
        return y @ self.w if y.ndim == 2 else y * self.w[0]


class Box(torch.nn.Module):
    def __init__(self, name, inner):
        super().__init__()
        self.name = name
        self.add_module("box_" + name if name == "0" else name, inner)

    def forward(self, x):
        return next(iter(self._modules.values()))(x)


class Parent(torch.nn.Module):
    def __init__(self, parts):
        super().__init__()
        self.pre = torch.nn.ModuleList([p[0] for p in parts])
        self.body = torch.nn.ModuleDict({f"m{k}": p[1] for k, p in enumerate(parts)})
        self.post = torch.nn.ModuleList([p[2] for p in parts])

    def forward(self, xs):
        return sum(self.post[k](self.body[f"m{k}"](self.pre[k](x))).double() for k, x in enumerate(xs))


class World:
    def __init__(self, c):
        self.c = c
        self.specs = [m["spec"] for m in c["models"]]
        self.kinds = [m["kind"] for m in c["models"]]
        self.alone, self.embs, parts = [], [], []
        for m in c["models"]:
            model, emb = self.build(m)
            self.embs.append(emb)
            s = m["spec"]
            dt = G.F[s["dtype"]]
            pre, post = Pre(s["d"], dt), Post(s.get("o", 1), dt)
            self.alone.append((pre, model, post))
            parts.append(self.wrap(m, copy.deepcopy((pre, model, post))))
        self.parent = Parent(parts)
        self.opts = None
        self.offsets = [0] * len(self.kinds)

    def build(self, m, shift=0):
        s = dict(m["spec"], seed=m["spec"]["seed"] + shift)
        if m["kind"] == "prob":
            if shift and s.get("emb"):
                s["seed"] -= shift
            return G.build_prob(s)
        return (G.build_ti(s) if m["kind"] == "ti" else G.build_mps(s)), None

    def wrap(self, m, part):
        pre, body, post = part
        for _ in range(m["depth"]):
            body = Box(m["name"], body)
        return pre, body, post

    def fresh(self):
        """A new parent of the same structure with other parameters"""
        parts = []
        for m in self.c["models"]:
            model, _ = self.build(m, 1000)
            s = m["spec"]
            dt = G.F[s["dtype"]]
            parts.append(self.wrap(m, (Pre(s["d"], dt), model, Post(s.get("o", 1), dt))))
        return Parent(parts)

    def inner(self, k):
        b = self.parent.body[f"m{k}"]
        while isinstance(b, Box):
            b = next(iter(b._modules.values()))
        return b

    def alone_forward(self, xs):
        return sum(post(model(pre(x))).double() for (pre, model, post), x in zip(self.alone, xs))

    def alone_params(self):
        """Order of the parent's parameters"""
        out = []
        for i in range(3):
            for p in self.alone:
                out += list(p[i].parameters())
        return out

    def feed(self, rng, batch):
        xs = []
        for s, k, emb in zip(self.specs, self.kinds, self.embs):
            if k == "prob":
                xs.append(G.prob_input(s, rng, batch, emb)[0])
            else:
                n = 3 if k == "ti" else s.get("width", s["n"])
                raw = s["d"] == 2 and rng.random() < 0.4
                xs.append(torch.tensor(rng.uniform(size=(batch, n) if raw else (batch, n, s["d"]))).to(G.F[s["dtype"]]))
        return xs

    def single(self):
        return any(s["dtype"] == "f32" for s in self.specs)


def attempt(f):
    try:
        return f(), None
    except RuntimeError as e:
        if "cutoff" in str(e):
            return None, "cutoff"
        raise


def close(w, a, b, what, **kw):
    if a is None or b is None:
        need(a is b, what, **kw)
        return
    need(a.shape == b.shape and a.dtype == b.dtype, what + ": shape or type", **kw)
    x, y = refs.wide(a.detach()), refs.wide(b.detach())
    # rounding of log probabilities and their derivatives is of order one times epsilon, whatever their size
    tol, floor = (2e-3, 1) if w.single() else (1e-8, 0.1)
    top = np.abs(x[np.isfinite(x)]).max(initial=floor)
    ok = (np.abs(x - y) <= tol * (top + np.abs(x))) | (x == y) | (np.isnan(x) & np.isnan(y))
    need(ok.all(), what, first=x, second=y, **kw)


def compare_state(w, what, obs):
    a, b = w.alone_params(), list(w.parent.parameters())
    need(len(a) == len(b), f"{what}: number of parameters of the parent", got=len(b), want=len(a))
    for p, q in zip(a, b):
        close(w, p, q, f"{what}: parameters as a part and alone")
        need(p.requires_grad == q.requires_grad, f"{what}: requires_grad")
    for k, (_, m, _) in enumerate(w.alone):
        r, t = getattr(m, "linear_region", None), getattr(w.inner(k), "linear_region", None)
        if w.kinds[k] == "ada":
            need(r.offset == t.offset and r.input_counter == t.input_counter, f"{what}: merge state as a part and alone",
                 got=(t.offset, t.input_counter), want=(r.offset, r.input_counter))
            if r.offset != w.offsets[k]:
                w.offsets[k] = r.offset
                obs.hit("changes_compared")
    obs.hit("states_compared")


def near_due(w, calls):
    """Could a merge-state change fall into the next calls?"""
    return any(k == "ada" and m.linear_region.input_counter + calls >= m.linear_region.merge_threshold
               for (_, m, _), k in zip(w.alone, w.kinds))


def optimizer(w, params):
    return torch.optim.SGD(params, lr=0.02) if w.c["opt"] == "sgd" else torch.optim.Adam(params, lr=0.005)


def grads(w, what, obs):
    for p, q in zip(w.alone_params(), w.parent.parameters()):
        if p.grad is not None and q.grad is None and not p.grad.any():
            continue
        if q.grad is not None and p.grad is None and not q.grad.any():
            continue
        close(w, p.grad, q.grad, what)
        obs.hit("gradients")


def zero(w):
    for p in w.alone_params() + list(w.parent.parameters()):
        p.grad = None


def finite(*vals):
    return all(bool(torch.isfinite(v).all()) for v in vals)


def clip(w):
    for ps in (w.alone_params(), list(w.parent.parameters())):
        g = [p.grad for p in ps if p.grad is not None]
        n = sum(float((x.abs().double() ** 2).sum()) for x in g) ** 0.5
        if not np.isfinite(n):
            return False
        if n > 1:
            [x.mul_(1 / n) for x in g]
    return True


def step(w, op, rng, obs):
    xs = w.feed(rng, G.ri(rng, 1, 3))
    if op in ("eval", "infer"):
        ctx = torch.no_grad if op == "eval" else torch.inference_mode
        with torch.no_grad():
            a = attempt(lambda: w.alone_forward(xs))
        with ctx():
            b = attempt(lambda: w.parent(xs))
        need(a[1] == b[1], f"{op}: one of them is refused", alone=a[1], part=b[1])
        if a[1]:
            raise Skip("cutoff too large")
        close(w, a[0], b[0], f"{op}: outputs as a part and alone")
        obs.hit("outputs", len(xs[0]))
    elif op == "train":
        if w.opts is None:
            w.opts = optimizer(w, w.alone_params()), optimizer(w, list(w.parent.parameters()))
        zero(w)
        a, b = attempt(lambda: w.alone_forward(xs)), attempt(lambda: w.parent(xs))
        need(a[1] == b[1], "train: one of them is refused", alone=a[1], part=b[1])
        if a[1]:
            raise Skip("cutoff too large")
        close(w, a[0], b[0], "train: outputs as a part and alone")
        if not finite(a[0]):
            raise Skip("infinite loss")
        if not a[0].requires_grad:
            return
        (a[0] ** 2).mean().backward()
        (b[0] ** 2).mean().backward()
        grads(w, "train: gradients as a part and alone", obs)
        if not clip(w):
            raise Skip("infinite gradient")
        for o in w.opts:
            o.step()
        obs.hit("optimizer_steps")
    elif op == "restore":
        buf = io.BytesIO()
        torch.save(w.parent.state_dict(), buf)
        buf.seek(0)
        new = w.fresh()
        res = new.load_state_dict(torch.load(buf))
        need(not res.missing_keys and not res.unexpected_keys, "keys of the parent's state dictionary")
        flags = [p.requires_grad for p in w.parent.parameters()]
        new.train(w.parent.training)
        for (_, a), b in zip(w.parent.named_modules(), new.modules()):
            b.training = a.training
        w.parent = new
        for p, f in zip(new.parameters(), flags):
            p.requires_grad_(f)
        w.opts = None
        obs.hit("restored")
    elif op == "copy":
        w.parent = copy.deepcopy(w.parent)
        w.opts = None
        obs.hit("copies")
    elif op == "move":
        # parts taken out and put back
        body = w.parent.body
        k = list(body)[0]
        m = body.pop(k)
        body[k] = m
        body_order = sorted(body)
        w.parent.body = torch.nn.ModuleDict({k: body[k] for k in body_order})
        obs.hit("moves")
    elif op == "freeze":
        k = G.ri(rng, 0, 2)
        flag = bool(rng.random() < 0.5)
        [m.requires_grad_(flag) for m in ([p[k] for p in w.alone])]
        [w.parent.pre, w.parent.body, w.parent.post][k].requires_grad_(flag)
        obs.hit("freezes")
    elif op == "mode":
        flag = bool(rng.random() < 0.5)
        w.parent.train(flag)  # alone stays as it is: modes must not matter
    elif op == "twice":
        if near_due(w, 2 * len(xs[0])):
            return
        ys = w.feed(rng, len(xs[0]))
        zero(w)
        tot = w.parent(xs) + w.parent(ys)
        if not tot.requires_grad:
            for z in (xs, ys):
                w.alone_forward(z)
            return
        one, two = w.alone_forward(xs), w.alone_forward(ys)
        if not finite(one, two):
            raise Skip("infinite loss")
        tot.mean().backward()
        for v in (one, two):
            if v.requires_grad:
                v.mean().backward()
        grads(w, "two calls in one graph against two backward passes", obs)
        obs.hit("double_calls")
    elif op == "accumulate":
        if near_due(w, 2 * len(xs[0])):
            return
        ys = w.feed(rng, len(xs[0]))
        zero(w)
        for z in (xs, ys):
            v = w.parent(z)
            if v.requires_grad and finite(v):
                v.sum().backward()
        one, two = w.alone_forward(xs), w.alone_forward(ys)
        if not finite(one, two):
            raise Skip("infinite loss")
        if one.requires_grad or two.requires_grad:
            for p, g in zip(w.alone_params(), torch.autograd.grad(one.sum() + two.sum(), w.alone_params(), allow_unused=True)
                            if all(p.requires_grad for p in w.alone_params()) else [None] * 1000):
                p.grad = g
            if all(p.requires_grad for p in w.alone_params()):
                grads(w, "accumulated gradients", obs)
                obs.hit("accumulations")
    elif op == "partial":
        # gradient of a subset of parameters only
        if near_due(w, 2 * len(xs[0])):
            return
        ps = [p for p in w.parent.parameters() if p.requires_grad and p.numel()]
        qs = [p for p in w.alone_params() if p.requires_grad and p.numel()]
        if not ps:
            w.parent(xs), w.alone_forward(xs)
            return
        sel = [i for i in range(len(ps)) if rng.random() < 0.5] or [0]
        v, u = w.parent(xs), w.alone_forward(xs)
        if not finite(v, u):
            raise Skip("infinite loss")
        if not v.requires_grad:
            return
        flags = [p.requires_grad for p in qs]
        full = torch.autograd.grad(u.sum(), qs, allow_unused=True)
        some = torch.autograd.grad(v.sum(), [ps[i] for i in sel], allow_unused=True)
        for i, g in zip(sel, some):
            if full[i] is None or g is None:
                need((full[i] is None or not full[i].any()) and (g is None or not g.any()), "gradient of a subset of parameters")
                continue
            close(w, full[i], g, "gradient of a subset of parameters")
            obs.hit("partial_gradients")
    elif op == "slope":
        # derivative along a random direction of all parameters, by differences
        if near_due(w, len(xs[0])) or w.single():
            return
        ps = [p for p in w.parent.parameters() if p.requires_grad and p.numel()]
        v = w.parent(xs)
        w.alone_forward(xs)
        if not v.requires_grad or not finite(v):
            return
        dirs = [G.rand_like(p, rng) for p in ps]
        gs = torch.autograd.grad(v.sum(), ps, allow_unused=True)
        auto = sum(float((g.conj() * h).real.sum()) for g, h in zip(gs, dirs) if g is not None)
        base = copy.deepcopy(w.parent)

        def at(t):
            m = copy.deepcopy(base)
            with torch.no_grad():
                for p, h in zip([p for p in m.parameters() if p.requires_grad and p.numel()], dirs):
                    p.add_(t * h)
                for r in m.modules():
                    if hasattr(r, "merge_threshold"):
                        r.merge_threshold = 10**9
                return float(m(xs).sum())

        ests = [(at(h) - at(-h)) / (2 * h) for h in (1e-5, 2e-5)]
        if not np.isfinite(ests).all() or not np.isfinite(auto):
            return
        bend = abs(ests[1] - ests[0]) * 3 + 1e-5 * (1 + float(v.abs().sum()) + abs(auto))
        if bend < 0.05 * max(abs(auto), abs(ests[0])):
            need(abs(ests[0] - auto) <= bend, "derivative of the whole program by its parameters", got=auto, want=ests, bend=bend)
            obs.hit("slopes")
        else:
            obs.hit("slopes_too_rough")
    elif op == "functional":
        if "ada" in w.kinds:
            # torch leaves substituted tensors behind in modules registered under two names
            return
        before = [mon.bits(p) for p in w.parent.parameters()]
        new = {k: (p + 0.05 * G.rand_like(p, rng)).detach() for k, p in w.parent.named_parameters()}
        other = copy.deepcopy(w.parent)
        with torch.no_grad():
            for k, p in other.named_parameters():
                p.copy_(new[k])
        leaf = {k: v.clone().requires_grad_(True) for k, v in new.items()}
        out = functional_call(w.parent, leaf, (xs,))
        w.alone_forward(xs)
        other.requires_grad_(True)
        ref = other(xs)
        close(w, ref, out, "outputs with substituted parameters")
        need(before == [mon.bits(p) for p in w.parent.parameters()], "a call with substituted parameters changes the model")
        if finite(out):
            ga = torch.autograd.grad(ref.sum(), list(other.parameters()), allow_unused=True)
            gb = torch.autograd.grad(out.sum(), [leaf[k] for k, _ in other.named_parameters()], allow_unused=True)
            for x, y in zip(ga, gb):
                if x is None or y is None:
                    need((x is None or not x.any()) and (y is None or not y.any()), "gradient with substituted parameters")
                    continue
                close(w, x, y, "gradient with substituted parameters")
        obs.hit("substitutions")


def run(c, obs):
    rng = np.random.default_rng(c["seed"])
    w = World(c)
    compare_state(w, "start", obs)
    done = set()
    try:
        for op in c["ops"]:
            step(w, op, rng, obs)
            compare_state(w, op, obs)
            done.add(op)
            obs.hit("operations")
            obs.state(op, *[(k, m["depth"]) for k, m in zip(w.kinds, c["models"])])
    except Skip:
        obs.hit("histories_cut_short")
    obs.hit("histories")
    if len(c["ops"]) >= 4 and len(done) >= 3:
        obs.nontrivial(c["seed"])
