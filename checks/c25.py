"""C25: joint_shuffle, onehot and load_HV_data keep every datum with its label."""
import collections
import itertools

import numpy as np
import torch

from rtm import gen as G
from rtm import mon
from rtm.core import Skip, fail, need

CASES = {"quick": 5000, "thorough": 60000}
RULE = ("data of 1-4 dimensions, all types, sizes 0-60 and layouts (contiguous, transposed, strided, expanded, sliding "
        "windows, views of a table shared with the labels) and label tensors of 1-3 dimensions are shuffled; the multiset "
        "of (datum, label) pairs, as bit patterns, must be that of a copy taken before, also when the caller goes on "
        "shuffling his data with other labels; one-hot rows against a comparison matrix for all label containers; the "
        "stripe set of each size against an enumeration of all stripe images; non-trivial if the order has changed")
MIN = {"again": 374, "images": 117819, "large_sets": 5, "layout_column": 271, "layout_expanded": 245,
       "layout_plain": 473, "layout_same": 286, "layout_strided": 245, "layout_table": 255,
       "layout_transposed": 259, "layout_windows": 214, "moved": 1443, "onehot_refused": 321, "onehot_rows": 3686,
       "pairs": 496424, "shuffles": 2253, "stripe_sets": 374}
DT = [torch.float32, torch.float64, torch.float16, torch.int64, torch.int32, torch.uint8, torch.bool, torch.complex64]


def gen(rng, tier, idx):
    what = ["shuffle", "shuffle", "shuffle", "again", "onehot", "stripes"][idx % 6] if idx % 30 != 29 else "stripes"
    if what == "stripes":
        return {"what": what, "length": G.pick(rng, [1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10] + ([11, 12] if tier == "thorough" else [])),
                "npseed": G.rs(rng)}
    return {"what": what, "n": G.pick(rng, [0, 1, 2, 3, 5, G.ri(rng, 0, 60), G.ri(rng, 0, 60) if idx % 12 else G.pick(rng, [65, 129, 257, 600, 1025, 3000])]),
            "shape": [int(x) for x in rng.integers(1, 4, size=G.pick(rng, [0, 1, 1, 2, 2, 3]))],
            "lshape": [int(x) for x in rng.integers(1, 4, size=G.pick(rng, [0, 0, 0, 1, 2]))],
            "dt": G.ri(rng, 0, len(DT) - 1), "ldt": G.ri(rng, 0, len(DT) - 1), "seed": G.rs(rng),
            "layout": G.pick(rng, ["plain", "plain", "transposed", "strided", "expanded", "windows", "table", "same", "column"]),
            "repeats": bool(rng.random() < 0.4), "k": G.ri(rng, 1, 12) if rng.random() < 0.9 else G.pick(rng, [255, 256, 257, 1000]),
            "container": G.pick(rng, ["tensor", "int32", "list", "tuple", "array", "range"])} if idx % 250 else {
                "what": "shuffle", "n": G.ri(rng, 32769, 67000), "shape": [], "lshape": [], "dt": G.ri(rng, 0, len(DT) - 1),
                "ldt": G.pick(rng, [3, 4]), "seed": G.rs(rng), "layout": G.pick(rng, ["plain", "strided"]), "repeats": False}


def make(rng, dt, shape, repeats):
    hi = 3 if repeats else 100000
    v = rng.integers(0, hi, size=shape)
    if not repeats and dt not in (torch.bool, torch.uint8, torch.float16):
        v = np.arange(v.size).reshape(v.shape) * 7 + 1
    t = torch.tensor(v).to(dt)
    if dt.is_complex:
        t = t * (1 + 2j)
    return t


def rows(t):
    t = t.detach().resolve_conj()
    return [(str(t.dtype), tuple(r.shape), r.contiguous().numpy().tobytes()) for r in t]


def pairs(d, l):
    return list(zip(rows(d), rows(l)))


def build(c, rng):
    n, dt, ldt = c["n"], DT[c["dt"]], DT[c["ldt"]]
    sh = [n] + c["shape"]
    lay = c["layout"]
    l = make(rng, ldt, [n] + c["lshape"], c["repeats"])
    if lay == "transposed":
        d = make(rng, dt, sh[::-1], c["repeats"]).permute(*range(len(sh))[::-1])
    elif lay == "strided":
        d = make(rng, dt, [2 * n] + c["shape"], c["repeats"])[::2]
        l = make(rng, ldt, [3 * n] + c["lshape"], c["repeats"])[::3]
    elif lay == "expanded":
        d = make(rng, dt, sh + [1], c["repeats"]).expand(sh + [3])
    elif lay == "windows" and n:
        d = make(rng, dt, [n + 3], c["repeats"]).unfold(0, 4, 1)
    elif lay == "table":
        t = make(rng, dt, [n, 4], c["repeats"])
        d, l = t[:, :3], t[:, 3]
    elif lay == "column":
        d = make(rng, dt, [n, 4], c["repeats"])
        l = d[:, 0]
    elif lay == "same":
        d = make(rng, dt, sh, c["repeats"])
        l = d
    else:
        d = make(rng, dt, sh, c["repeats"])
    return d, l


def shuffled(d, l, obs, c):
    from torchmps.utils import joint_shuffle

    before = pairs(d, l)
    order = rows(d)
    keep = mon.bits(d), mon.bits(l)
    a, b = joint_shuffle(d, l)
    need((mon.bits(d), mon.bits(l)) == keep, "the caller's tensors were changed")
    need(isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor), "no tensors returned")
    need(a.shape == d.shape and b.shape == l.shape, "shapes changed", data=tuple(a.shape), labels=tuple(b.shape))
    need(a.dtype == d.dtype and b.dtype == l.dtype, "types changed", data=str(a.dtype), labels=str(b.dtype))
    got = pairs(a, b)
    need(collections.Counter(got) == collections.Counter(before), "data and labels no longer belong together",
         n=len(before), lost=len(collections.Counter(before) - collections.Counter(got)))
    obs.hit("pairs", len(got))
    obs.hit("shuffles")
    obs.hit("large_sets", int(len(got) > 32768))
    obs.hit("layout_" + c["layout"])
    if rows(a) != order:
        obs.hit("moved")
        obs.nontrivial(c["seed"])
    elif len(set(order)) > 12:
        fail("nothing was shuffled", n=len(order))
    obs.state(c["dt"], c["layout"], len(got))
    return a, b


def run(c, obs):
    from torchmps.utils import load_HV_data, onehot

    what = c["what"]
    if what == "stripes":
        L = c["length"]
        np.random.seed(c["npseed"] % 2**31)
        xs, ls, xt, lt = load_HV_data(L)
        want = {}
        for p in itertools.product((0.0, 1.0), repeat=L):
            if len(set(p)) < 2:
                continue
            h = np.tile(np.array(p, np.float32)[:, None], (1, L))
            want[h.tobytes()] = 0
            want[np.ascontiguousarray(h.T).tobytes()] = 1
        need(xs.shape[1:] == (L, L) and xt.shape[1:] == (L, L), "wrong image shape", train=tuple(xs.shape))
        need(len(xs) == len(ls) and len(xt) == len(lt), "images and labels differ in number")
        need(ls.ndim == 1 and lt.ndim == 1, "labels are not vectors")
        need(not ls.is_floating_point() and not lt.is_floating_point(), "labels are no integers", dtype=str(ls.dtype))
        total = len(want)
        need(len(xt) * 4 == total and len(xs) * 4 == 3 * total, "not a 75/25 split", train=len(xs), test=len(xt), all=total)
        seen = collections.Counter()
        for x, l in list(zip(xs, ls)) + list(zip(xt, lt)):
            key = np.ascontiguousarray(x.numpy().astype(np.float32)).tobytes()
            need(key in want, "image is no stripe image", image=x.tolist())
            need(int(l) == want[key], "wrong label", image=x.tolist(), label=int(l))
            seen[key] += 1
        need(len(seen) == total and set(seen.values()) <= {1}, "images missing or repeated", seen=len(seen), all=total)
        obs.hit("images", total)
        obs.hit("stripe_sets")
        obs.state("stripes", L)
        obs.nontrivial("stripes", L)
        return
    rng = np.random.default_rng(c["seed"])
    if what == "onehot":
        k, n = c["k"], c["n"]
        y = rng.integers(0, k, size=n)
        box = {"tensor": torch.tensor(y), "int32": torch.tensor(y).to(torch.int32), "list": y.tolist(),
               "tuple": tuple(y.tolist()), "array": y, "range": range(min(n, k))}[c["container"]]
        if c["container"] == "range":
            y = np.arange(min(n, k))
        keep = mon.bits(box) if isinstance(box, torch.Tensor) else None
        got = onehot(box, k)
        want = (y[:, None] == np.arange(k)[None]).astype(float)
        need(isinstance(got, torch.Tensor) and tuple(got.shape) == want.shape, "wrong shape", got=got.shape, want=want.shape)
        need(got.is_floating_point(), "not of floating type")
        need(np.array_equal(got.double().numpy(), want), "wrong one-hot vectors", labels=y.tolist(), k=k)
        need(keep is None or mon.bits(box) == keep, "labels changed")
        obs.hit("onehot_rows", len(y))
        if n:
            bad = y.copy()
            bad[int(rng.integers(len(bad)))] = k + int(rng.integers(0, 3)) if len(bad) else 0
            try:
                onehot(torch.tensor(bad), k)
            except (IndexError, RuntimeError, ValueError, AssertionError):
                obs.hit("onehot_refused")
            else:
                fail("label outside the range accepted", k=k)
        obs.nontrivial(c["seed"])
        return
    d, l = build(c, rng)
    if what == "again":
        # the caller keeps two sets of labels for one set of data
        l2 = torch.arange(len(d))
        first = pairs(d, l)
        second = pairs(d, l2)
        shuffled(d, l, obs, c)
        need(pairs(d, l) == first, "the caller's data were rearranged")
        a, b = shuffled(d, l2, obs, c)
        need(collections.Counter(pairs(a, b)) == collections.Counter(second), "data and labels no longer belong together")
        a, b = shuffled(a, b, obs, c)
        need(collections.Counter(pairs(a, b)) == collections.Counter(second), "data and labels no longer belong together")
        obs.hit("again")
    else:
        shuffled(d, l, obs, c)
