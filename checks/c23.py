"""C23: batch_broadcast, shape_broadcast, batch_to and bundle_tensors against NumPy's broadcasting."""
import numpy as np
import torch

from rtm import gen as G
from rtm import mon
from rtm.core import fail, need

CASES = {"quick": 18000, "thorough": 400000}
RULE = ("random collections of 0-6 tensors with batch shapes of 0-5 dimensions (sizes 0-4, many ones), 0-3 non-batch "
        "dimensions each, of all types and layouts, given as list or tuple; compatible and incompatible ones, judged by "
        "numpy.broadcast_shapes; results compared bitwise with explicit broadcasting, arguments must stay as they were; "
        "non-trivial if at least two different batch shapes were involved")
MIN = {"expanded": 1068, "malformed_refused": 597, "refused": 363, "shapes": 1102, "stacked": 811, "tensors": 9659,
       "unchanged": 593}
DTS = [torch.float32, torch.float64, torch.complex64, torch.int64, torch.bool]


def gen(rng, tier, idx):
    what = G.pick(rng, ["broadcast", "broadcast", "broadcast", "shape", "to", "bundle"])
    k = G.pick(rng, [0, 1, 2, 2, 3, 3, 4, 6])
    full = [int(x) for x in rng.integers(1, 5, size=G.pick(rng, [0, 1, 1, 2, 2, 3, 4, 5]))]
    if full and rng.random() < 0.03:
        full[int(rng.integers(len(full)))] = G.pick(rng, [33, 65, 300])
    if full and rng.random() < 0.1:
        full[int(rng.integers(len(full)))] = 0

    def sub():
        sh = list(full[int(rng.integers(0, len(full) + 1)):]) if rng.random() < 0.6 else list(full)
        return [1 if rng.random() < 0.35 else x for x in sh]

    b = [sub() for _ in range(k)]
    if b and rng.random() < 0.3:
        # possibly incompatible
        i = int(rng.integers(k))
        if b[i]:
            b[i][int(rng.integers(len(b[i])))] = int(rng.integers(0, 6))
    nb = [[int(x) for x in rng.integers(1, 4, size=G.pick(rng, [0, 0, 1, 2, 3]))] for _ in range(k)]
    return {"what": what, "batch": b, "nonbatch": nb, "seed": G.rs(rng), "seq": G.pick(rng, ["list", "tuple"]),
            "full": full, "equal": bool(rng.random() < 0.6), "dim": int(rng.integers(-4, 4))}


def t(rng, shape):
    dt = DTS[int(rng.integers(len(DTS)))]
    v = torch.tensor(rng.integers(-9, 9, size=shape)).to(dt)
    if v.ndim > 1 and rng.random() < 0.3:
        v = v.transpose(0, -1).contiguous().transpose(0, -1)
    if v.is_floating_point() and rng.random() < 0.2:
        v.requires_grad_(True)
    return v


def npb(shapes):
    try:
        return np.broadcast_shapes(*[tuple(s) for s in shapes])
    except ValueError:
        return None


def equal(got, x, shape, what):
    need(isinstance(got, torch.Tensor), f"{what}: not a tensor")
    need(got.dtype == x.dtype, f"{what}: type changed", got=str(got.dtype), want=str(x.dtype))
    need(tuple(got.shape) == tuple(shape), f"{what}: wrong shape", got=tuple(got.shape), want=tuple(shape))
    need(got.requires_grad == x.requires_grad, f"{what}: gradient tracking lost")
    a = x.detach().numpy()
    a = a.reshape(tuple(a.shape[: a.ndim]))
    return a


def run(c, obs):
    from torchmps import utils2 as U

    rng = np.random.default_rng(c["seed"])
    seq = list if c["seq"] == "list" else tuple
    what = c["what"]
    refusals = (ValueError, RuntimeError, AssertionError, IndexError, TypeError)
    if what == "shape":
        if not c["batch"]:
            return
        want = npb(c["batch"])
        shapes = [torch.Size(b) if rng.random() < 0.5 else tuple(b) for b in c["batch"]]
        keep = [tuple(s) for s in shapes]
        try:
            got = U.shape_broadcast(shapes)
        except refusals:
            need(want is None, "compatible shapes refused", shapes=c["batch"])
            obs.hit("refused")
        else:
            need(want is not None, "incompatible shapes accepted", shapes=c["batch"], got=got)
            need(tuple(got) == tuple(want), "wrong broadcast shape", shapes=c["batch"], got=got, want=want)
            obs.hit("shapes")
        need([tuple(s) for s in shapes] == keep, "argument changed")
    elif what == "broadcast":
        xs = seq(t(rng, tuple(b) + tuple(n)) for b, n in zip(c["batch"], c["nonbatch"]))
        nnb = seq(len(n) for n in c["nonbatch"])
        keep = [mon.bits(x) for x in xs]
        want = npb(c["batch"]) if c["batch"] else ()
        try:
            got = U.batch_broadcast(xs, nnb)
        except refusals:
            need(want is None, "compatible batch shapes refused", shapes=c["batch"], nonbatch=c["nonbatch"])
            obs.hit("refused")
        else:
            need(want is not None, "incompatible batch shapes accepted", shapes=c["batch"])
            need(len(got) == len(xs), "wrong number of results", got=len(got), want=len(xs))
            for x, g, b, n in zip(xs, got, c["batch"], c["nonbatch"]):
                w = np.broadcast_to(x.detach().numpy().reshape((1,) * (len(want) - len(b)) + tuple(b) + tuple(n)),
                                    tuple(want) + tuple(n))
                equal(g, x, w.shape, "broadcast tensor")
                need(np.array_equal(g.detach().numpy(), w), "broadcast tensor has wrong values", shapes=c["batch"])
                obs.hit("tensors")
        need([mon.bits(x) for x in xs] == keep, "arguments changed")
        # a tensor with fewer dimensions than non-batch ones, or lists of different lengths
        if len(xs) >= 2 and rng.random() < 0.1:
            bad = list(nnb)
            bad[0] = xs[0].ndim + 1
            for arg in ((xs, bad), (xs, list(nnb)[1:])):
                try:
                    U.batch_broadcast(*arg)
                except refusals:
                    obs.hit("malformed_refused")
                else:
                    fail("malformed number of non-batch dimensions accepted")
    elif what == "to":
        if not c["batch"]:
            return
        b, n = c["batch"][0], c["nonbatch"][0]
        x = t(rng, tuple(b) + tuple(n))
        target = tuple(c["full"])
        if npb([b, target]) == target:
            g = U.batch_to(x, target if rng.random() < 0.5 else torch.Size(target), len(n))
            w = np.broadcast_to(x.detach().numpy().reshape((1,) * (len(target) - len(b)) + tuple(b) + tuple(n)), target + tuple(n))
            equal(g, x, w.shape, "expanded tensor")
            need(np.array_equal(g.detach().numpy(), w), "expanded tensor has wrong values")
            obs.hit("expanded")
        elif npb([b, target]) is None:
            try:
                U.batch_to(x, target, len(n))
            except refusals:
                obs.hit("refused")
            else:
                fail("incompatible batch shape accepted", batch=b, target=target)
    else:
        k = len(c["batch"])
        shape = tuple(c["batch"][0]) + tuple(c["nonbatch"][0]) if k else ()
        if c["equal"]:
            dt = DTS[int(rng.integers(3))]
            xs = [t(rng, shape).detach().to(dt) for _ in range(k)]
        else:
            xs = [t(rng, tuple(b) + tuple(n)) for b, n in zip(c["batch"], c["nonbatch"])]
        same = len({tuple(x.shape) for x in xs}) == 1
        xs = seq(xs)
        dim = max(-len(shape) - 1, min(len(shape), c["dim"]))
        if same and len({x.dtype for x in xs}) > 1:
            return  # stacking of mixed types follows torch's rules
        keep = [mon.bits(x) for x in xs]
        got = U.bundle_tensors(xs, dim=dim)
        if same:
            w = np.stack([x.detach().numpy() for x in xs], axis=dim)
            need(isinstance(got, torch.Tensor) and tuple(got.shape) == w.shape, "tensors of equal shape not stacked",
                 got=getattr(got, "shape", type(got)), want=w.shape)
            need(got.dtype == xs[0].dtype and np.array_equal(got.detach().numpy(), w), "stacked tensor has wrong values")
            obs.hit("stacked")
        else:
            need(not isinstance(got, torch.Tensor) and len(got) == len(xs) and all(a is b for a, b in zip(got, xs)),
                 "other collections must be returned unchanged")
            obs.hit("unchanged")
        if xs:
            need(U.bundle_tensors(xs[0], dim=dim) is xs[0] or torch.equal(U.bundle_tensors(xs[0], dim=dim), xs[0]),
                 "single tensor not returned unchanged")
        need([mon.bits(x) for x in xs] == keep, "arguments changed")
    obs.state(what, str(c["batch"]), str(c["nonbatch"]))
    if len({tuple(b) for b in c["batch"]}) > 1:
        obs.nontrivial(what, str(c["batch"]), str(c["nonbatch"]), c["dim"])
