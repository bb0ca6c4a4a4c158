"""C33: the example script trains on exactly its configured data and reports true averages."""
import ast
import contextlib
import copy
import io
import os
import re
import sys
import types

import numpy as np
import torch

from rtm import gen as G
from rtm.core import REPO, Skip, Violation, fail, need

CASES = {"quick": 64, "thorough": 1500}
CHUNK = 1
RULE = ("train_script.py is run as it is, apart from the values of its settings (sizes, epochs, batch size, bond dimension, "
        "learning rate, regularization, adaptive and periodic mode, drawn at random; MNIST is replaced by synthetic "
        "images of the same format) with hooks on every model call, optimizer step and dataset access; an offline checker "
        "replays the recorded log: rows seen per epoch as a multiset against the data sets, gradients against autograd of "
        "a model copy taken before the call, each optimizer step against an own Adam, and every printed number against "
        "the recorded outputs; non-trivial if the order of the images differs between epochs or sets")
MIN = {"epochs": 52, "gradients": 130, "settings": 144, "steps": 130, "test_batches": 99,
       "updates": 612}
SCRIPT = os.path.join(REPO, "train_script.py")
SET = ("bond_dim", "adaptive_mode", "periodic_bc", "num_train", "num_test", "batch_size", "num_epochs", "learn_rate", "l2_reg")


def gen(rng, tier, idx):
    b = G.pick(rng, [1, 2, 3, 4, 5])
    many = rng.random() < 0.1
    s = {"bond_dim": G.pick(rng, [2, 3, 4]) if not many else 6, "adaptive_mode": bool(rng.random() < 0.3),
         "periodic_bc": bool(rng.random() < 0.3), "batch_size": b,
         "num_train": b * G.ri(rng, 1, 4) + (G.ri(rng, 0, b - 1) if rng.random() < 0.3 else 0),
         "num_test": b * G.ri(rng, 1, 3) + (G.ri(rng, 0, b - 1) if rng.random() < 0.3 else 0),
         "num_epochs": G.ri(rng, 1, 3), "learn_rate": G.pick(rng, [3e-6, 1e-4, 1e-3, 3e-3, 0.03]),
         "l2_reg": G.pick(rng, [0.0, 0.0, 1e-5, 2e-4, 0.01, 0.3, 3.0])}
    return {"set": s, "extra": G.ri(rng, 0, 5), "seed": G.rs(rng), "noise": G.rs(rng), "twice": bool(rng.random() < 0.3),
            "labels": G.pick(rng, ["random", "random", "skewed", "constant"]), "dark": bool(rng.random() < 0.3)}


class Patch(ast.NodeTransformer):
    """Give the settings other values, wherever the script sets them."""

    def __init__(self, values):
        self.values, self.seen = values, set()

    def new(self, name, old):
        if name in self.values and isinstance(old, ast.Constant):
            self.seen.add(name)
            return ast.copy_location(ast.Constant(self.values[name]), old)
        return old

    def visit_Assign(self, node):
        self.generic_visit(node)
        for t in node.targets:
            if isinstance(t, ast.Name):
                node.value = self.new(t.id, node.value)
            elif isinstance(t, ast.Tuple) and isinstance(node.value, ast.Tuple) and len(t.elts) == len(node.value.elts):
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Name):
                        node.value.elts[i] = self.new(e.id, node.value.elts[i])
        return node

    def visit_AnnAssign(self, node):
        if isinstance(node.target, ast.Name) and node.value is not None:
            node.value = self.new(node.target.id, node.value)
        return node

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        a = node.args
        pos = a.posonlyargs + a.args
        for i, d in enumerate(a.defaults):
            a.defaults[i] = self.new(pos[len(pos) - len(a.defaults) + i].arg, d)
        for i, d in enumerate(a.kw_defaults):
            if d is not None:
                a.kw_defaults[i] = self.new(a.kwonlyargs[i].arg, d)
        return node


class Stub:
    """The part of torchvision the script uses, with synthetic images."""

    def __init__(self, c):
        rng = np.random.default_rng(c["seed"])
        s = c["set"]
        self.sets = {}
        for train, n in ((True, s["num_train"] + c["extra"]), (False, s["num_test"] + c["extra"])):
            im = rng.integers(0, 256, size=(n, 28, 28)).astype(np.uint8)
            if c["dark"]:
                im = np.where(rng.random(im.shape) < 0.8, 0, im).astype(np.uint8)
            im[:, 0, 0] = np.arange(n) % 256
            im[:, 0, 1] = 10 + train
            y = rng.integers(0, 10, size=n)
            if c["labels"] == "skewed":
                y = np.where(rng.random(n) < 0.7, 0, y)
            elif c["labels"] == "constant":
                y[:] = 3
            self.sets[train] = (im, y)
        self.rows = {}
        for train, (im, y) in self.sets.items():
            for i in range(len(im)):
                self.rows[self.tensor(im[i]).numpy().tobytes()] = (train, i, int(y[i]))
        need(len(self.rows) == sum(len(v[1]) for v in self.sets.values()), "harness: equal images")

    @staticmethod
    def tensor(im):
        return torch.from_numpy(np.array(im, dtype=np.float32) / np.float32(255)).reshape(1, 28, 28)

    def modules(self):
        stub = self

        class ToTensor:
            def __call__(self, im):
                return stub.tensor(im)

        class Compose:
            def __init__(self, ts):
                self.ts = ts

            def __call__(self, x):
                for t in self.ts:
                    x = t(x)
                return x

        class Lambda:
            def __init__(self, f):
                self.f = f

            def __call__(self, x):
                return self.f(x)

        class MNIST(torch.utils.data.Dataset):
            def __init__(self, root, train=True, transform=None, target_transform=None, download=False):
                self.data, self.targets = stub.sets[bool(train)]
                self.transform, self.target_transform = transform, target_transform

            def __len__(self):
                return len(self.targets)

            def __getitem__(self, i):
                if not 0 <= i < len(self):
                    raise IndexError(i)
                x, y = self.data[i], int(self.targets[i])
                x = self.transform(x) if self.transform else x
                return x, (self.target_transform(y) if self.target_transform else y)

        tv, tr, ds = (types.ModuleType("torchvision" + n) for n in ("", ".transforms", ".datasets"))
        tr.ToTensor, tr.Compose, tr.Lambda, ds.MNIST = ToTensor, Compose, Lambda, MNIST
        tv.transforms, tv.datasets = tr, ds
        return {"torchvision": tv, "torchvision.transforms": tr, "torchvision.datasets": ds}


class Log:
    def __init__(self):
        self.events, self.model, self.depth, self.pre = [], None, 0, None

    def before(self, mod, args, kwargs=None):
        from torchmps import MPS

        if not isinstance(mod, MPS):
            return
        need(self.model is None or self.model is mod, "more than one model in use")
        self.model = mod
        x = args[0] if args else next(iter(kwargs.values()))
        self.pre = (x.detach().clone(), copy.deepcopy(mod) if torch.is_grad_enabled() else None)

    def after(self, mod, args, out):
        from torchmps import MPS

        if not isinstance(mod, MPS):
            return
        x, old = self.pre
        self.events.append({"t": "call", "x": x, "out": out.detach().clone(), "grad": torch.is_grad_enabled(), "old": old,
                            "p": [p.detach().clone() for p in mod.parameters()]})

    def step_pre(self, opt, args, kwargs):
        self.events.append({"t": "step", "covered": [id(p) for g in opt.param_groups for p in g["params"]],
                            "own": [id(p) for p in self.model.parameters()],
                            "g": [None if p.grad is None else p.grad.detach().clone() for p in self.model.parameters()],
                            "p": [p.detach().clone() for p in self.model.parameters()]})

    def step_post(self, opt, args, kwargs):
        self.events[-1]["new"] = [p.detach().clone() for p in self.model.parameters()]


def execute(c, code):
    """Run the script; returns (log, printed text, stub)."""
    from torch.nn.modules.module import register_module_forward_hook, register_module_forward_pre_hook
    from torch.optim.optimizer import register_optimizer_step_post_hook, register_optimizer_step_pre_hook

    stub, log, text = Stub(c), Log(), io.StringIO()
    mods = stub.modules()
    keep = {k: sys.modules.get(k) for k in mods}
    hooks = [register_module_forward_pre_hook(log.before), register_module_forward_hook(log.after),
             register_optimizer_step_pre_hook(log.step_pre), register_optimizer_step_post_hook(log.step_post)]
    argv = sys.argv
    try:
        sys.modules.update(mods)
        sys.argv = [SCRIPT]
        with contextlib.redirect_stdout(text):
            exec(code, {"__name__": "__main__", "__file__": SCRIPT})
    except (Violation, Skip):
        raise
    except Exception as e:
        fail(f"the script raised {type(e).__name__}: {e}")
    finally:
        sys.argv = argv
        for h in hooks:
            h.remove()
        for k, v in keep.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return log, text.getvalue(), stub


def ids(stub, x):
    out = []
    for row in x.reshape(len(x), -1):
        key = row.contiguous().numpy().tobytes()
        need(key in stub.rows, "the model was given a row which is no image of the data sets")
        out.append(stub.rows[key])
    return out


def cross(out, y):
    z = out.double()
    return (torch.logsumexp(z, 1) - z[torch.arange(len(y)), torch.tensor(y)])


def printed(text, pat):
    return [float(v) for v in re.findall(pat + r"\s*([-+\d.einfa]+)", text)]


def correct(out, y):
    """Smallest and largest number of right predictions (ties are open)."""
    top = out.max(1)[0]
    right = out[torch.arange(len(y)), torch.tensor(y)]
    tied = (out == top[:, None]).sum(1) > 1
    sure = int(((right == top) & ~tied).sum())
    return sure, sure + int(((right == top) & tied).sum())


def judge(c, log, text, stub, obs):
    s = c["set"]
    B, nb, tb = s["batch_size"], s["num_train"] // s["batch_size"], s["num_test"] // s["batch_size"]
    m = log.model
    need(m is not None, "no model was evaluated")
    for k, v in (("input_dim", 784), ("output_dim", 10), ("bond_dim", s["bond_dim"]), ("adaptive_mode", s["adaptive_mode"]),
                 ("periodic_bc", s["periodic_bc"])):
        if hasattr(m, k):
            need(getattr(m, k) == v, "the model isn't the configured one", what=k, got=getattr(m, k), want=v)
            obs.hit("settings")
    # what was printed about the settings
    for pat, v in ((r"[Tt]raining on", s["num_train"]), (r"testing on", s["num_test"]), (r"bond dimension =", s["bond_dim"]),
                   (r"learning rate =", s["learn_rate"])):
        got = printed(text, pat)
        need(not got or got[0] == v, "settings are reported wrongly", what=pat, got=got, want=v)
    for word, on in (("Adaptive", s["adaptive_mode"]), ("Periodic", s["periodic_bc"])):
        need((word in text) == on, "settings are reported wrongly", what=word)
    # epochs
    ev = log.events
    loss, acc, tacc = (printed(text, p) for p in (r"Average loss:", r"Average train accuracy:", r"Test accuracy:"))
    E = s["num_epochs"]
    need(len(loss) == len(acc) == len(tacc) == E, "not every epoch is reported", loss=loss, acc=acc, test=tacc, epochs=E)
    adam = [[torch.zeros_like(p, dtype=torch.float64), torch.zeros_like(p, dtype=torch.float64), 0, 0.0] for p in m.parameters()]
    k, orders, used, tested = 0, [], set(), set()
    for e in range(E):
        seen, tot, lo, hi, err = [], 0.0, 0, 0, 0.0
        for b in range(nb):
            need(k + 1 < len(ev), "training ended early", epoch=e, batch=b)
            call, step = ev[k], ev[k + 1]
            k += 2
            need(call["t"] == "call" and call["grad"] and step["t"] == "step", "not one optimizer step per training batch",
                 epoch=e, batch=b, got=[call["t"], step["t"]])
            need(tuple(call["x"].shape) == (B, 784), "batch of another size", got=call["x"].shape)
            who = ids(stub, call["x"])
            need(all(t for t, _, _ in who), "test images used for training")
            seen += [i for _, i, _ in who]
            y = [v for _, _, v in who]
            li = cross(call["out"], y)
            tot += float(li.mean())
            a, z = correct(call["out"], y)
            lo, hi = lo + a, hi + z
            err += 1e-5 * (1 + float(call["out"].abs().max()))
            check_step(c, call, step, y, adam, m, obs)
            obs.hit("steps")
        need(len(set(seen)) == len(seen), "images used more than once in an epoch", epoch=e, ids=seen)
        used |= set(seen)
        orders.append(tuple(seen))
        need(abs(loss[e] - tot / nb) <= 6e-5 + err / nb + 1e-6 * abs(tot), "wrong average loss", epoch=e, got=loss[e], want=tot / nb)
        need(lo / B / nb - 6e-5 <= acc[e] <= hi / B / nb + 6e-5, "wrong training accuracy", epoch=e, got=acc[e],
             want=(lo / B / nb, hi / B / nb))
        last = ev[k - 1]["new"]
        seen, lo, hi = [], 0, 0
        for b in range(tb):
            need(k < len(ev), "test ended early", epoch=e, batch=b)
            call = ev[k]
            k += 1
            need(call["t"] == "call" and not call["grad"], "test batches must be evaluated, without training", epoch=e, batch=b)
            who = ids(stub, call["x"])
            need(not any(t for t, _, _ in who), "training images used for the test")
            seen += [i for _, i, _ in who]
            y = [v for _, _, v in who]
            a, z = correct(call["out"], y)
            lo, hi = lo + a, hi + z
            if not s["adaptive_mode"]:
                need(all(torch.equal(p, q) for p, q in zip(last, call["p"])), "the test changed the parameters")
            obs.hit("test_batches")
        need(len(seen) == tb * B and len(set(seen)) == len(seen), "test images used more than once", ids=seen)
        tested |= set(seen)
        need(lo / B / tb - 6e-5 <= tacc[e] <= hi / B / tb + 6e-5, "wrong test accuracy", epoch=e, got=tacc[e],
             want=(lo / B / tb, hi / B / tb))
        obs.hit("epochs")
    need(k == len(ev), "more calls or steps than configured", extra=[v["t"] for v in ev[k:]])
    need(len(used) <= s["num_train"] and len(tested) <= s["num_test"], "more images than configured", train=len(used), test=len(tested))
    if len(set(orders)) > 1 or any(o != tuple(sorted(o)) for o in orders):
        obs.nontrivial(str(orders))
    n = nb * B
    if n >= 8 and E >= 2:
        need(len(set(orders)) > 1, "every epoch uses the images in the same order", ids=orders[0])
        obs.hit("reordered")
    obs.state(str(sorted(s.items())))


def check_step(c, call, step, y, adam, m, obs):
    s = c["set"]
    need(set(step["own"]) <= set(step["covered"]), "parameters of the model which the optimizer doesn't know")
    old = call["old"]
    ps = list(old.parameters())
    for p in ps:
        p.grad = None
    out = old(call["x"])
    if not bool(torch.isfinite(out).all()):
        # the product of 784 matrices has left the range of the type
        obs.hit("overflow")
        raise Skip("training left the range of the type")
    torch.nn.functional.cross_entropy(out, torch.tensor(y)).backward()
    for p, g in zip(ps, step["g"]):
        want = torch.zeros_like(p) if p.grad is None else p.grad
        got = torch.zeros_like(p) if g is None else g
        tol = 1e-4 * (1e-6 + float(want.abs().max()))
        need(float((got - want).abs().max()) <= tol, "the step doesn't use the gradient of this batch's loss",
             got=float(got.abs().max()), want=float(want.abs().max()), diff=float((got - want).abs().max()))
    obs.hit("gradients")
    for (i, p), q, g in zip(enumerate(step["p"]), step["new"], step["g"]):
        if g is None:
            need(torch.equal(p, q), "parameter without gradient changed")
            continue
        a = adam[i]
        a[3] = a[3] + 1e-6 * (g.double().abs() + s["l2_reg"] * p.double().abs())
        g = g.double() + s["l2_reg"] * p.double()
        a[0] = 0.9 * a[0] + 0.1 * g
        a[1] = 0.999 * a[1] + 0.001 * g * g
        a[2] += 1
        d = s["learn_rate"] * (a[0] / (1 - 0.9 ** a[2])) / ((a[1] / (1 - 0.999 ** a[2])).sqrt() + 1e-8)
        # (where loss and regularization nearly cancel, rounding errors of the gradient matter)
        den = (a[1] / (1 - 0.999 ** a[2])).sqrt() + 1e-8
        tol = 1e-6 * p.double().abs() + s["learn_rate"] * (1e-3 + (10 * a[3] / den).clamp(max=30))
        if not bool((a[1] < 1e35).all()):  # the squares leave the range of the type
            obs.hit("out_of_range")
            continue
        need(bool(((q.double() - (p.double() - d)).abs() <= tol).all()), "the update isn't the one of Adam with these settings",
             lr=s["learn_rate"], got=float((q - p).abs().max()), want=float(d.abs().max()))
        obs.hit("updates")


def run(c, obs):
    tree = ast.parse(open(SCRIPT).read(), SCRIPT)
    p = Patch(c["set"])
    tree = ast.fix_missing_locations(p.visit(tree))
    if p.seen != set(SET):
        raise Skip("settings not found: " + ", ".join(sorted(set(SET) - p.seen)))
    code = compile(tree, SCRIPT, "exec")
    log, text, stub = execute(c, code)
    judge(c, log, text, stub, obs)
    if c["twice"]:
        torch.manual_seed(c["noise"] % 2**31)
        torch.rand(3)
        log2, text2, _ = execute(c, code)
        strip = lambda t: re.sub(r"Runtime.*", "", t)
        need(strip(text) == strip(text2), "a second run gives other results", first=text[-300:], second=text2[-300:])
        obs.hit("repeated")
    need(len(re.findall(r"Runtime so far:\s*\d+", text)) == c["set"]["num_epochs"], "runtime not reported every epoch")
