"""Operation-level monitors: thread scheduler, operation watcher, fault injection, state snapshots."""
import gc
import hashlib
import os
import random
import sys
import threading

import numpy as np
import torch
from torch.overrides import TorchFunctionMode
from torch.utils._python_dispatch import TorchDispatchMode

from rtm.core import PKG


class Injected(RuntimeError):
    """A fault injected by the monitor."""


# ------------------------------------------------------------------ threads


class Scheduler:
    """Runs functions in threads, one at a time; at every tensor operation and every source line of
    the library a seeded generator decides which thread goes on.  Same seed, same interleaving."""

    def __init__(self, seed, p, lines=True, limit=400000):
        self.rng = random.Random(seed)
        self.p, self.lines, self.limit = p, lines, limit
        self.points = self.switches = 0
        self.hash = hashlib.md5()

    def run(self, fns):
        n = len(fns)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.results = [None] * n
        self.errors = [None] * n
        self.done = threading.Semaphore(0)
        self.tid = {}
        ths = [threading.Thread(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in ths:
            t.start()
        self.sem[self.rng.randrange(n)].release()
        for _ in range(n):
            if not self.done.acquire(timeout=200):
                raise RuntimeError("threads did not finish")
        for t in ths:
            t.join()
        return self.results, self.errors

    def _body(self, i, f):
        self.sem[i].acquire()
        self.tid[threading.get_ident()] = i
        try:
            if self.lines:
                sys.settrace(self._trace)
            try:
                with _YieldMode(self):
                    self.results[i] = f()
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.errors[i] = e
        self.alive.discard(i)
        if self.alive:
            nxt = self.rng.choice(sorted(self.alive))
            self.hash.update(b"%d!" % nxt)
            self.sem[nxt].release()
        self.done.release()

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == "line":
            self.point()
        return self._line

    def point(self):
        self.points += 1
        if self.points > self.limit or self.rng.random() >= self.p:
            return
        me = self.tid[threading.get_ident()]
        others = sorted(self.alive - {me})
        if not others:
            return
        nxt = self.rng.choice(others)
        self.switches += 1
        self.hash.update(b"%d@%d." % (nxt, self.points))
        self.sem[nxt].release()
        self.sem[me].acquire()


class _YieldMode(TorchDispatchMode):
    def __init__(self, sched):
        super().__init__()
        self.sched = sched

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        self.sched.point()
        return out


# ------------------------------------------------------------------ operations


RNG_OPS = ("rand", "normal", "bernoulli", "multinomial", "dropout", "uniform_", "exponential_", "random_", "poisson")


class OpWatch(TorchDispatchMode):
    """Counts operations, records the largest result, random ops, and in-place writes to given tensors;
    optionally raises Injected at the k-th operation."""

    def __init__(self, protect=(), fault_at=None, shapes=False):
        super().__init__()
        self.n = 0
        self.names = {}
        self.largest = 0
        self.largest_op = None
        self.rng_ops = []
        self.writes = []
        self.fault_at = fault_at
        self.shapes = [] if shapes else None
        self.protect = {t.untyped_storage().data_ptr(): k for k, t in protect if t.numel()}

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = func._schema.name.split("::")[-1]
        self.n += 1
        self.names[name] = self.names.get(name, 0) + 1
        if self.fault_at is not None and self.n == self.fault_at:
            raise Injected(f"fault at operation {self.n} ({name})")
        if any(name.startswith(r) for r in RNG_OPS):
            self.rng_ops.append(name)
        if self.protect:
            for a, sa in zip(args, func._schema.arguments):
                if isinstance(a, torch.Tensor) and sa.alias_info is not None and sa.alias_info.is_write:
                    key = self.protect.get(a.untyped_storage().data_ptr())
                    if key is not None and a.numel():
                        self.writes.append((name, key))
        out = func(*args, **kwargs)
        for o in out if isinstance(out, (tuple, list)) else (out,):
            if isinstance(o, torch.Tensor):
                size = o.untyped_storage().nbytes() // max(1, o.element_size())
                size = min(size, o.numel()) if o.numel() else 0
                if self.shapes is not None:
                    self.shapes.append((name, tuple(o.shape), o.is_contiguous() or not o._is_view()))
                if size > self.largest:
                    self.largest, self.largest_op = size, (name, tuple(o.shape))
        return out


class FnFault(TorchFunctionMode):
    """Raises at the k-th call of a torch function whose name contains `what`."""

    def __init__(self, what, k):
        super().__init__()
        self.what, self.k, self.seen = what, k, 0

    def __torch_function__(self, func, types, args=(), kwargs=None):
        name = getattr(func, "__name__", str(func))
        if self.what in name:
            self.seen += 1
            if self.seen == self.k:
                raise torch.linalg.LinAlgError(f"injected failure of {name}")
        return func(*args, **(kwargs or {}))


# ------------------------------------------------------------------ snapshots


def bits(t):
    """Bitwise content, shape and type of a tensor."""
    d = t.detach().resolve_conj().resolve_neg()
    return str(t.dtype), tuple(t.shape), d.contiguous().cpu().numpy().tobytes()


def state(model):
    out = {k: bits(v) for k, v in model.state_dict().items()}
    for k in ("bond_list", "sv_list"):
        if hasattr(model, k):
            out["#" + k] = bits(torch.as_tensor(getattr(model, k)))
    r = getattr(model, "linear_region", None)
    if r is not None and hasattr(r, "offset"):
        out["#offset"] = r.offset
        out["#counter"] = r.input_counter
        out["#active"] = tuple(id(m.tensor) for m in r.module_list)
    out["#ids"] = tuple(sorted(id(p) for p in model.parameters()))
    out["#requires_grad"] = tuple((k, p.requires_grad) for k, p in model.named_parameters())
    out["#names"] = tuple(k for k, _ in model.named_parameters()) + tuple(k for k, _ in model.named_buffers())
    # (merge-state changes replace the modules of an adaptive model)
    out["#training"] = (model.training,) + tuple((k, m.training) for k, m in model.named_modules() if not k.startswith("linear_region."))
    return out


def world():
    """Global state an evaluation has no business to change."""
    ns = np.random.get_state()
    return {
        "torch rng": torch.get_rng_state().numpy().tobytes(),
        "numpy rng": (ns[0], ns[1].tobytes(), ns[2:]),
        "python rng": hash(random.getstate()),
        "default dtype": torch.get_default_dtype(),
        "grad mode": torch.is_grad_enabled(),
        "numpy errors": tuple(sorted(np.geterr().items())),
        "anomaly": torch.is_anomaly_enabled(),
        "inference": torch.is_inference_mode_enabled(),
        "threads": torch.get_num_threads(),
        "deterministic": torch.are_deterministic_algorithms_enabled(),
        "matmul precision": torch.get_float32_matmul_precision(),
        "autocast": torch.is_autocast_enabled("cpu"),
        "default device": str(torch.get_default_device()),
        "collector": gc.isenabled(),
        "recursion": sys.getrecursionlimit(),
        "directory": os.getcwd(),
    }


def diff(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
