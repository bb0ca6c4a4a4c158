"""C26: products of labelled tensors do not depend on the grouping and keep their labels and order."""
import numpy as np
import torch

from rtm import gen as G
from rtm import mon, refs
from rtm.core import Skip, fail, need

CASES = {"quick": 3750, "thorough": 100000}
RULE = ("random chains of edge vectors or output matrices at the ends and single matrices, regions (0-7 matrices), "
        "output cores, scalars and nested lists between them, of random bond and batch sizes and types, with or without own "
        "batch dimension, are multiplied in random groupings, each supported product (as decided by an independent "
        "support table) carried out and each unsupported one required to raise TypeError; results, labels, order of the "
        "output indices, result classes and gradients are compared with an ordered reference product; lists are also "
        "reduced serially and in parallel; non-trivial with three or more elements")
MIN = {"chains": 1687, "cores_of_long_chains": 438, "gradients": 25242, "groupings": 5059, "item_times_lists": 599,
       "lists_times_item": 962, "malformed_refused": 16398, "nested_reductions": 1594, "no_batch_refused": 2157,
       "parallel_reductions": 1677, "products": 18339, "regions_reduced": 1944, "repeated_reductions": 4326,
       "results": 35891, "serial_reductions": 1387, "serial_refused": 291, "unsupported_refused": 21314}
DT = {"f32": torch.float32, "f64": torch.float64, "c64": torch.complex64}


def gen(rng, tier, idx):
    k = G.pick(rng, [1, 2, 3, 3, 4, 5, 6])
    mid = [G.pick(rng, ["mat", "mat", "region", "region", "core", "scalar", "mat"]) for _ in range(k)]
    if rng.random() < 0.6:
        # at most one output core
        seen = False
        for i, m in enumerate(mid):
            if m == "core":
                if seen:
                    mid[i] = "mat"
                seen = True
    left = G.pick(rng, ["vec", "vec", "vec", "omat", None])
    right = G.pick(rng, ["vec", "vec", "vec", "omat", None])
    D = G.pick(rng, [1, 2, 3, 4])
    B = G.pick(rng, [1, 1, 2, 3, 5])
    if idx % 50 == 27:
        # many free indices, most of them of size one
        mid = ["core"] * G.ri(rng, 8, 18)
        mid.insert(int(rng.integers(len(mid))), G.pick(rng, ["mat", "region", "scalar"]))
        B = G.pick(rng, [1, 2])
    if idx % 25 == 13 and "core" not in mid and "omat" not in (left, right):
        D, B = G.pick(rng, [(3, 65), (2, 257), (17, 2), (33, 1), (2, 600)])
    return {"mid": mid, "left": left, "right": right, "B": B, "seed": G.rs(rng), "D": D,
            "same": bool(rng.random() < 0.5), "dt": G.pick(rng, ["f64", "f64", "f32", "c64"]), "sparse": bool(rng.random() < 0.2),
            "nobatch": G.pick(rng, [0.0, 0.0, 0.4, 1.0]), "grad": bool(rng.random() < 0.5)}


class El:
    """Element of a chain: the contractable, its kind for the support table, and its reference tensor."""

    def __init__(self, obj, kind, ref, aref, l, r, num):
        self.obj, self.kind, self.ref, self.aref = obj, kind, ref, aref
        self.l, self.r, self.num = l, r, num  # has left bond / right bond, number of output indices


def supported(a, b):
    """May a*b be formed?  Kinds: vec (edge vector), mat, core, region, omat, scalar, gen, list."""
    if "scalar" in (a.kind, b.kind):
        return True
    if a.kind == "vec" and b.kind == "vec":
        return True
    if "region" in (a.kind, b.kind):
        return "vec" in (a.kind, b.kind)
    if a.kind == b.kind == "omat":
        return False
    return True


def kind_of(l, r, num):
    if num == 0:
        return {(0, 0): "scalar", (1, 0): "vec", (0, 1): "vec", (1, 1): "mat"}[(l, r)]
    if num == 1 and l and r:
        return "core"
    return "gen"


def combine(x, y):
    """x, y: dict(v=(B,O,L,R), outs=list, l, r).  Scalars have no bonds and multiply anything."""
    if not (x["l"] or x["r"]) and not x["outs"] or not (y["l"] or y["r"]) and not y["outs"]:
        v = np.einsum("bolr,bpmn->boplmrn", x["v"], y["v"])
        B = v.shape[0]
        v = v.reshape(B, v.shape[1] * v.shape[2], v.shape[3] * v.shape[4], v.shape[5] * v.shape[6])
        return {"v": v, "outs": x["outs"] + y["outs"], "l": x["l"] or y["l"], "r": x["r"] or y["r"]}
    v = np.einsum("bolm,bpmr->boplr", x["v"], y["v"])
    return {"v": v.reshape(v.shape[0], -1, v.shape[3], v.shape[4]), "outs": x["outs"] + y["outs"], "l": x["l"], "r": y["r"]}


def tensor_of(obj):
    need(hasattr(obj, "tensor") and hasattr(obj, "bond_str"), "the product is no labelled tensor", type=type(obj).__name__)
    return obj.tensor, obj.bond_str


def check(obj, ref, aref, eps, depth, what, obs):
    """obj's labelled tensor against the reference."""
    t, s = tensor_of(obj)
    need(t.ndim == len(s), f"{what}: labels do not match the tensor", labels=s, shape=tuple(t.shape))
    need(len(set(s)) == len(s), f"{what}: repeated label", labels=s)
    need(s[0] == "b", f"{what}: no leading batch label", labels=s)
    has_l, has_r = "l" in s, "r" in s
    need(has_l == bool(ref["l"]) and has_r == bool(ref["r"]), f"{what}: wrong bonds", labels=s, want=(ref["l"], ref["r"]))
    outs = [c for c in s if c not in "blr"]
    need(len(outs) == len(ref["outs"]), f"{what}: wrong number of output indices", labels=s)
    if len(outs) == 1:
        need(outs == ["o"], f"{what}: the output index lost its label", labels=s)
    order = "b" + "".join(outs) + ("l" if has_l else "") + ("r" if has_r else "")
    x = refs.wide(t.permute([s.index(ch) for ch in order]))
    B = ref["v"].shape[0]
    need(list(x.shape) == [B] + ref["outs"] + ([ref["v"].shape[2]] if has_l else []) + ([ref["v"].shape[3]] if has_r else []),
         f"{what}: wrong shape", shape=x.shape, labels=s, outs=ref["outs"])
    refs.close(x.reshape(ref["v"].shape), ref["v"], eps * depth * aref["v"] + 1e-300, what)
    obs.hit("results")


def run(c, obs):
    from torchmps import contractables as C

    rng = np.random.default_rng(c["seed"])
    dt = DT[c["dt"]]
    eps = refs.eps_of(dt)
    B, D0 = c["B"], c["D"]
    C.Contractable.global_bs = B
    leaves = []

    def rand(*shape):
        v = rng.normal(size=shape)
        if dt.is_complex:
            v = v + 1j * rng.normal(size=shape)
        if c["sparse"]:
            v = v * (rng.random(shape) < 0.5)
        v = v / max(1.0, (shape[-2] if len(shape) > 1 else 1)) ** 0.5
        t = torch.tensor(v).to(dt)
        nob = rng.random() < c["nobatch"]
        if nob and len(shape) > 1:
            t = t[0].clone()
        t.requires_grad_(c["grad"])
        leaves.append(t)
        w = refs.wide(t)
        return t, (np.broadcast_to(w, (B,) + w.shape) if nob and len(shape) > 1 else w)

    def dim():
        return D0 if c["same"] else int(rng.integers(1, 5))

    els = []

    def add(make, kind, w, outs, l, r):
        # w: (B, outs, L, R) canonical
        ref = {"v": w, "outs": outs, "l": l, "r": r}
        aref = {**ref, "v": np.abs(w)}
        els.append(El(make, kind, ref, aref, l, r, len(outs)))

    # bond sizes; regions are square
    cur = dim()
    depth = 6
    if c["left"] == "vec":
        t, w = rand(B, cur)
        add(lambda t=t: C.EdgeVec(t, is_left_vec=True), "vec", w[:, None, None, :], [], 0, 1)
    elif c["left"] == "omat":
        o = int(rng.integers(1, 4))
        # left output matrices carry labels b, r, o
        t, w = rand(B, cur, o)
        add(lambda t=t: C.OutputMat(t, is_left_mat=True), "omat", w.transpose(0, 2, 1)[:, :, None, :], [o], 0, 1)
    for m in c["mid"]:
        depth += 12
        if m == "scalar":
            t, w = rand(B)
            add(lambda t=t: C.Scalar(t), "scalar", w[:, None, None, None], [], 0, 0)
        elif m == "mat":
            n = dim()
            t, w = rand(B, cur, n)
            add(lambda t=t: C.SingleMat(t), "mat", w[:, None], [], 1, 1)
            cur = n
        elif m == "core":
            n, o = dim(), int(rng.integers(1, 4)) if len(c["mid"]) < 8 else 1 + int(rng.random() < 0.25)
            t, w = rand(B, o, cur, n)
            add(lambda t=t: C.OutputCore(t), "core", w, [o], 1, 1)
            obs.hit("cores_of_long_chains", int(len(c["mid"]) > 7))
            cur = n
        else:
            k = int(rng.integers(0, 8))
            t, w = rand(B, k, cur, cur)
            v, a = np.broadcast_to(np.eye(cur), (B, cur, cur)), np.broadcast_to(np.eye(cur), (B, cur, cur))
            for i in range(k):
                v, a = v @ w[:, i], a @ np.abs(w[:, i])
            depth += 6 * k
            add(lambda t=t: C.MatRegion(t), "region", v[:, None], [], 1, 1)
            els[-1].aref = {**els[-1].ref, "v": a[:, None]}
    if c["right"] == "vec":
        t, w = rand(B, cur)
        add(lambda t=t: C.EdgeVec(t, is_left_vec=False), "vec", w[:, None, :, None], [], 1, 0)
    elif c["right"] == "omat":
        o = int(rng.integers(1, 4))
        t, w = rand(B, cur, o)
        add(lambda t=t: C.OutputMat(t, is_left_mat=False), "omat", w.transpose(0, 2, 1)[:, :, :, None], [o], 1, 0)
    depth *= 4 * D0 + 16
    C.Contractable.global_bs = B
    whole, awhole = els[0].ref, els[0].aref
    for e in els[1:]:
        whole, awhole = combine(whole, e.ref), combine(awhole, e.aref)
    weight = torch.tensor(rng.normal(size=whole["v"].shape[1:])).to(dt)
    first_grads = [None]

    def finish(obj, what):
        check(obj, whole, awhole, eps, depth, what, obs)
        if not c["grad"] or not any(x.numel() for x in leaves):
            return
        t, s = obj.tensor, obj.bond_str
        outs = "".join(ch for ch in s if ch not in "blr")
        order = "b" + outs + ("l" if "l" in s else "") + ("r" if "r" in s else "")
        y = t.permute([s.index(ch) for ch in order]).reshape((B,) + tuple(weight.shape))
        z = (y * weight).sum()
        z = z.real + 0.5 * z.imag if z.is_complex() else z
        need(z.requires_grad, f"{what}: gradient lost")
        gr = [refs.wide(g) if g is not None else np.zeros(tuple(l.shape))
              for g, l in zip(torch.autograd.grad(z, leaves, allow_unused=True), leaves)]
        if first_grads[0] is None:
            first_grads[0] = gr
        for g, w in zip(gr, first_grads[0]):
            # scale of the gradients: no cancellation bound at hand, so a generous one
            lim = 1e-9 if eps < 1e-10 else 2e-2
            top = max([np.abs(x).max() for x in first_grads[0] if x.size] + [1e-6])
            refs.close(g, w, lim * top, f"{what}: gradient depends on the grouping")
            obs.hit("gradients")

    def fresh():
        return [El(e.obj(), e.kind, e.ref, e.aref, e.l, e.r, e.num) for e in els]

    # ---------------- random groupings
    for _ in range(3):
        items = fresh()
        keep = [mon.bits(e.obj.tensor) for e in items]
        originals = [e.obj for e in items]
        tries = 0
        while len(items) > 1:
            tries += 1
            i = int(rng.integers(len(items) - 1))
            a, b = items[i], items[i + 1]
            ok = supported(a, b)
            if rng.random() < 0.15:
                # a nested list in place of the pair, if it can be multiplied with a neighbour
                if i + 2 < len(items) and ok:
                    x = items[i + 2]
                    ab = El(None, kind_of(*flags(a, b)), None, None, *flags(a, b))
                    # list * x multiplies x from the right end
                    if supported(b, x) and supported(a, El(None, kind_after(b, x), None, None, *flags(b, x))):
                        if x.kind != "list":
                            obj = C.ContractableList([a.obj, b.obj]) * x.obj
                            items[i: i + 3] = [merge3(a, b, x, obj)]
                            obs.hit("lists_times_item")
                            check_item(items[i], eps, depth, obs)
                            continue
                if i >= 1 and ok:
                    x = items[i - 1]
                    if supported(x, a) and supported(El(None, kind_after(x, a), None, None, *flags(x, a)), b):
                        obj = x.obj * C.ContractableList([a.obj, b.obj])
                        items[i - 1: i + 2] = [merge3(x, a, b, obj)]
                        obs.hit("item_times_lists")
                        check_item(items[i - 1], eps, depth, obs)
                        continue
            if a.kind == "region" and rng.random() < 0.15 or b.kind == "region" and tries > 40:
                x = a if a.kind == "region" else b
                obj = x.obj.reduce()
                items[items.index(x)] = El(obj, "mat", x.ref, x.aref, 1, 1, 0)
                check(obj, x.ref, x.aref, eps, depth, "reduced region", obs)
                obs.hit("regions_reduced")
                continue
            if not ok:
                try:
                    got = a.obj * b.obj
                except TypeError:
                    obs.hit("unsupported_refused")
                else:
                    # an implementation may support more, if it is right
                    if isinstance(got, C.MatRegion):
                        got = got.reduce()
                    check(got, combine(a.ref, b.ref), combine(a.aref, b.aref), eps, depth, "product", obs)
                    fail("unsupported product accepted", left=a.kind, right=b.kind)
                if tries > 60:
                    for j, e in enumerate(items):
                        if e.kind == "region":
                            items[j] = El(e.obj.reduce(), "mat", e.ref, e.aref, 1, 1, 0)
                            break
                    else:
                        break  # two output matrices and nothing else
                continue
            obj = a.obj * b.obj
            obs.hit("products")
            obs.state(a.kind, b.kind, a.num, b.num)
            e = merge2(a, b, obj)
            items[i: i + 2] = [e]
            check_item(e, eps, depth, obs)
        if len(items) == 1 and items[0].kind == "region":
            items[0].obj = items[0].obj.reduce()
        if len(items) == 1:
            finish(items[0].obj, "whole chain")
            obs.hit("groupings")
        need([mon.bits(o.tensor) for o in originals] == keep, "operands changed by multiplication")
    # ---------------- reduction of lists
    lone = [e.kind for e in els if e.kind != "scalar"]
    can_par = lone != ["omat", "omat"]
    nouts = sum(e.num for e in els)
    region = any(e.kind == "region" for e in els)
    can_ser = can_par and (not region or (c["left"] == c["right"] == "vec" and nouts <= 1))
    if can_par and len(els) > 1:
        finish(C.ContractableList([e.obj for e in fresh()]).reduce(parallel_eval=True), "parallel reduction")
        obs.hit("parallel_reductions")
    if len(els) > 1:
        try:
            got = C.ContractableList([e.obj for e in fresh()]).reduce(parallel_eval=False)
        except TypeError:
            need(not can_ser, "serial reduction refused", kinds=[e.kind for e in els])
            obs.hit("serial_refused")
        else:
            if isinstance(got, C.MatRegion):
                got = got.reduce()
            finish(got, "serial reduction")
            obs.hit("serial_reductions")
    # lists within lists
    if can_par and len(els) > 2:
        k = int(rng.integers(1, len(els) - 1))
        parts = fresh()
        inner = [e.kind for e in els[k:] if e.kind != "scalar"]
        inner0 = [e.kind for e in els[:k] if e.kind != "scalar"]
        if inner != ["omat", "omat"] and inner0 != ["omat", "omat"]:
            lst = C.ContractableList([e.obj.reduce() for e in parts[:k]] +
                                     [C.ContractableList([e.obj.reduce() for e in parts[k:]])])
            finish(lst.reduce(parallel_eval=True), "reduction of nested lists")
            obs.hit("nested_reductions")
    need(C.Contractable.global_bs == B, "the batch size got lost", got=C.Contractable.global_bs, want=B)
    # a list may be reduced again, and the list it was made from stays what it was
    if can_par and len(els) > 1:
        objs = [e.obj for e in fresh()]
        given = list(objs)
        lst = C.ContractableList(given)
        order = [True, True, False] if can_ser else [True, True]
        rng.shuffle(order)
        for par in order:
            got = lst.reduce(parallel_eval=bool(par))
            if isinstance(got, C.MatRegion):
                got = got.reduce()
            check(got, whole, awhole, eps, depth, "repeated reduction", obs)
            need(len(given) == len(objs) and all(a is b for a, b in zip(given, objs)), "the caller's list changed in a reduction")
            obs.hit("repeated_reductions")
    if c["seed"] % 4 == 0:
        refusals(C, rng, dt, B, obs)
    if len(els) > 2:
        obs.nontrivial(c["seed"])
    obs.hit("chains")


ORDERS = {"MatRegion": (3, 4), "OutputCore": (3, 4), "SingleMat": (2, 3), "OutputMat": (2, 3), "EdgeVec": (1, 2),
          "Scalar": (0, 1)}


def refusals(C, rng, dt, B, obs):
    """Malformed pieces are refused, which leaves the batch size known to the library as it was."""
    def shape(n):
        return [int(x) for x in rng.integers(1, 4, size=n)]

    def tens(sh):
        return torch.tensor(rng.normal(size=sh)).to(dt)

    def refused(f, errs, what, **kw):
        C.Contractable.global_bs = B
        try:
            f()
        except errs:
            pass
        else:
            fail(f"{what} accepted", **kw)
        need(C.Contractable.global_bs == B, f"{what}: the refused call changed the batch size")
        obs.hit("malformed_refused")

    for name, good in ORDERS.items():
        cls = getattr(C, name)
        args = (bool(rng.integers(2)),) if name in ("OutputMat", "EdgeVec") else ()
        for n in range(6):
            if n in good:
                continue
            # regions must be square, so that the order alone is wrong
            sh = shape(n)
            if name == "MatRegion" and n >= 2:
                sh[-1] = sh[-2]
            refused(lambda: cls(tens(sh), *args), ValueError, f"{name} of a tensor of order {n}", shape=sh)
    for n in (3, 4):
        sh = shape(n)
        sh[-1] = sh[-2] + int(rng.integers(1, 3))
        if rng.random() < 0.5:
            sh[-1], sh[-2] = sh[-2], sh[-1]
        refused(lambda: C.MatRegion(tens(sh)), ValueError, "region of matrices which are not square", shape=sh)
    v = C.EdgeVec(tens([B, 2]), is_left_vec=True)
    for bad in ([], (v,), v, None, [v, 3], [tens([B, 2])], [None, v]):
        refused(lambda: C.ContractableList(bad), ValueError, "malformed list", got=repr(type(bad)))
    # labels which do not fit the order of the tensor
    for labels in ("blr", "bolr", "br", "slr", "lr"):
        n = G.pick(rng, [k for k in range(1, 7) if k not in (len(labels), len(labels) - (labels[0] == "b"))])
        refused(lambda: C.Contractable(tens(shape(n)), bond_str=labels), ValueError, "labels of another order", labels=labels, n=n)
    # no batch size anywhere
    C.Contractable.global_bs = None
    for f in (lambda: C.SingleMat(tens([2, 3])), lambda: C.EdgeVec(tens([2]), True), lambda: C.MatRegion(tens([2, 3, 3])),
              lambda: C.OutputCore(tens([2, 3, 3])), lambda: C.OutputMat(tens([2, 3]), False)):
        try:
            f()
        except RuntimeError:
            need(C.Contractable.global_bs is None, "a refused piece set the batch size")
            obs.hit("no_batch_refused")
        else:
            fail("a piece without batch size accepted although none is known")
    # each piece with its own batch size makes that size known
    for n, make in ((B + 1, lambda n: C.SingleMat(tens([n, 2, 3]))), (B + 2, lambda n: C.EdgeVec(tens([n, 3]), True)),
                    (B, lambda n: C.Scalar(tens([n]))), (B + 3, lambda n: C.MatRegion(tens([n, 0, 2, 2])))):
        make(n)
        need(C.Contractable.global_bs == n, "the batch size of a piece is not taken over", got=C.Contractable.global_bs, want=n)
    C.Contractable.global_bs = B


def flags(a, b):
    if a.kind == "scalar":
        return b.l, b.r, b.num
    if b.kind == "scalar":
        return a.l, a.r, a.num
    return a.l, b.r, a.num + b.num


def kind_after(a, b):
    """Kind of the product a*b for the support table."""
    if a.kind == "scalar":
        return b.kind
    if b.kind == "scalar":
        return a.kind
    return kind_of(*flags(a, b))


def merge2(a, b, obj):
    return El(obj, kind_after(a, b), combine(a.ref, b.ref), combine(a.aref, b.aref), *flags(a, b))


def merge3(a, b, x, obj):
    ab = merge2(a, b, None)
    return merge2(ab, x, obj)


CLASS = {"vec": "EdgeVec", "mat": "SingleMat", "core": "OutputCore", "scalar": "Scalar", "region": "MatRegion",
         "omat": "OutputMat"}


def check_item(e, eps, depth, obs):
    if e.kind == "region":
        need(type(e.obj).__name__ == "MatRegion", "scaled region is no region", type=type(e.obj).__name__)
        check(e.obj.reduce(), e.ref, e.aref, eps, depth, "scaled region", obs)
        return
    if e.kind in CLASS:
        need(type(e.obj).__name__ == CLASS[e.kind], "product of another class", got=type(e.obj).__name__, want=CLASS[e.kind])
    check(e.obj, e.ref, e.aref, eps, depth, "product", obs)
