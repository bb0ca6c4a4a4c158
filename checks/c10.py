"""C10: threads evaluating models under a seeded scheduler give what they give alone."""
import numpy as np
import torch

from rtm import gen as G
from rtm import mon, refs
from rtm.core import Skip, blame, fail, need

CASES = {"quick": 800, "thorough": 12000}
RULE = ("2-4 threads, each with its own program of 1-4 evaluations (some with gradients) of shared non-adaptive or own "
        "models with different batch sizes; a seeded scheduler switches threads at tensor operations and library source "
        "lines with probability 0.01-0.5; results compared bitwise-tight with the sequential run; non-trivial if at "
        "least one switch happened; distinct interleavings are counted by the hash of the switch sequence")
MIN = {"again": 1837, "grad_calls": 717, "schedule_points": 929399, "shared_model_calls": 1837, "switches": 139745,
       "thread_calls": 2391}
CASE_TIMEOUT = 120
CHUNK = 4


def gen(rng, tier, idx):
    specs = []
    for k in range(G.ri(rng, 1, 3)):
        kind = G.pick(rng, ["prob", "mps", "mps", "ti"])
        if kind == "prob":
            s = G.prob_spec(rng, dist="normal", nmax=4)
            s["inp"] = G.pick(rng, ["sym", "vec"])
        elif kind == "mps":
            s = G.mps_spec(rng, nmax=4, adaptive=False)
        else:
            s = G.ti_spec(rng)
            s["n"] = G.ri(rng, 0, 4)
        specs.append(s)
    if rng.random() < 0.2:  # models of different types and sizes meet in the same functions
        specs = [dict(G.prob_spec(rng, kind=G.pick(rng, ["fixed", "unif"]), dist="normal", nmax=4, emb=False, bias=False,
                                  dtypes=(t,)), inp=G.pick(rng, ["sym", "vec"]), press=True) for t in ("f32", "f64")]
    threads = []
    for i in range(G.pick(rng, [2, 2, 2, 3, 4])):
        own = None
        if rng.random() < 0.4:
            own = G.mps_spec(rng, nmax=4)
            own["thresh"] = G.pick(rng, [3, 10**6])
        threads.append({"own": own, "calls": [
            {"m": -1 if own and rng.random() < 0.6 else G.ri(rng, 0, len(specs) - 1), "b": G.pick(rng, [1, 2, 3, 5, 7]),
             "grad": bool(rng.random() < 0.3), "seed": G.rs(rng)} for _ in range(G.ri(rng, 1, 4))]})
    return {"specs": specs, "threads": threads, "seed": G.rs(rng), "p": G.pick(rng, [0.01, 0.05, 0.2, 0.5]),
            "lines": bool(rng.random() < 0.7)}


def build(s):
    if s["kind"] in ("fixed", "unif"):
        return G.build_prob(s)
    return (G.build_mps(s) if s["kind"] == "mps" else G.build_ti(s)), None


def program(case, i, shared):
    th = case["threads"][i]
    own = build(th["own"]) if th["own"] else None
    jobs = []
    for c in th["calls"]:
        s = th["own"] if c["m"] < 0 else case["specs"][c["m"]]
        model, emb = own if c["m"] < 0 else shared[c["m"]]
        rng = np.random.default_rng(c["seed"])
        if s["kind"] in ("fixed", "unif"):
            x, _ = G.prob_input(s, rng, c["b"], emb)
            kw = {"slim_eval": bool(rng.random() < (0.6 if s.get("press") else 0.3)) and not s["bias"], "parallel_eval": bool(rng.random() < 0.3)}
        elif s["kind"] == "mps":
            (x, _), kw = G.mps_input({**s, "rows_differ": True}, rng, c["b"]), {}
        else:
            x, kw = torch.tensor(rng.normal(size=(c["b"], s["n"], s["d"]))).to(G.F[s["dtype"]]), {}
            if rng.random() < 0.3:
                x = list(x)
        jobs.append((model, x, kw, c["grad"]))

    def fn():
        outs = []
        for model, x, kw, grad in jobs:
            out = model(x, **kw)
            res = [out.detach().clone()]
            if grad and out.requires_grad:
                ps = [p for p in model.parameters()]
                gs = torch.autograd.grad(out.sum(), ps, allow_unused=True)
                res += [torch.zeros_like(p) if g is None else g for g, p in zip(gs, ps)]
            outs.append(res)
        return outs

    return fn, jobs


def settings():
    return torch.get_default_dtype(), torch.is_grad_enabled(), torch.get_num_threads(), torch.is_inference_mode_enabled()


def compare(u, v, what, **kw):
    need(u.shape == v.shape, f"shape of a result changed {what}", alone=tuple(u.shape), got=tuple(v.shape), **kw)
    need(u.dtype == v.dtype, f"type of a result changed {what}", alone=str(u.dtype), got=str(v.dtype), **kw)
    x, y = refs.wide(u), refs.wide(v)
    same = (x == y) | (np.isnan(x) & np.isnan(y))
    tol = 1e-5 if u.dtype in (torch.float32, torch.complex64) else 1e-11
    with np.errstate(invalid="ignore"):
        near = np.abs(x - y) <= tol * np.abs(np.where(np.isfinite(x), x, 0)).max(initial=0)
    need(bool((same | near).all()), f"result changed {what}", **kw)


def run(case, obs):
    n = len(case["threads"])
    # alone, one thread after the other
    shared = [build(s) for s in case["specs"]]
    alone = []
    for i in range(n):
        try:
            alone.append(program(case, i, shared)[0]())
        except RuntimeError as e:
            if "cutoff" in str(e):  # documented refusal: every singular value is below the cutoff
                raise Skip("cutoff too large")
            raise
    before = settings()
    sched = mon.Scheduler(case["seed"], case["p"], case["lines"])
    shared = [build(s) for s in case["specs"]]
    progs = [program(case, i, shared) for i in range(n)]
    results, errors = sched.run([p[0] for p in progs])
    for i, e in enumerate(errors):
        if e is not None:
            if blame(e) or not isinstance(e, AssertionError):
                fail(f"call in thread {i} raised {type(e).__name__}: {str(e)[:200]} (it succeeds alone)",
                     switches=sched.switches)
            raise e
    for i in range(n):
        for a, r, job in zip(alone[i], results[i], progs[i][1]):
            for u, v in zip(a, r):
                compare(u, v, "under concurrency", thread=i)
            obs.hit("thread_calls")
            obs.hit("grad_calls", int(job[3]))
    # nothing is left behind: the process is as before, and the shared models still answer the same
    left = settings()
    torch.set_default_dtype(before[0])
    torch.set_grad_enabled(True)
    need(left == before, "a setting of the process is different after concurrent calls", before=before, after=left)
    for i in range(n):
        for k, (u, (model, x, kw, _)) in enumerate(zip(alone[i], progs[i][1])):
            if case["threads"][i]["calls"][k]["m"] >= 0:
                compare(u[0], model(x, **kw).detach(), "after concurrent calls", thread=i)
                obs.hit("again")
    for th in case["threads"]:
        obs.hit("shared_model_calls", sum(c["m"] >= 0 for c in th["calls"]))
    obs.hit("switches", sched.switches)
    obs.hit("schedule_points", sched.points)
    obs.state(sched.hash.hexdigest())
    if sched.switches:
        obs.nontrivial(sched.hash.hexdigest())
