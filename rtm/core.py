"""Runner of the runtime monitors: generates cases, drives the library, collects verdicts.

Three outcomes: 0 held on everything observed, 1 violation (with a replay file), 2 inconclusive.
"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("RTM_OUT", VERIF)  # evidence and replays go here
REPO = os.environ.get("RTM_REPO", "/repo")
PKG = os.path.join(REPO, "torchmps") + os.sep
NEUTRAL = (os.path.join(VERIF, "rtm", "mon.py"),)


class Violation(Exception):
    """The oracle refutes the property on this case."""


class Skip(Exception):
    """The case turned out not to be usable (oracle has no say)."""


class Obs:
    """What the monitors observed."""

    def __init__(self):
        self.count = collections.Counter()
        self.states = set()
        self.nontriv = set()
        self.note = {}
        self.maxima = {}

    def hit(self, what, n=1):
        self.count[what] += n

    def state(self, *key):
        self.states.add(hashlib.md5(repr(key).encode()).hexdigest()[:16])

    def nontrivial(self, *key):
        self.nontriv.add(hashlib.md5(repr(key).encode()).hexdigest()[:16])

    def high(self, what, val):
        val = float(val)
        if val == val:
            self.maxima[what] = max(self.maxima.get(what, 0.0), val)

    def merge(self, other):
        self.count += other.count
        self.states |= other.states
        self.nontriv |= other.nontriv
        for k, v in other.maxima.items():
            self.high(k, v)


def fail(msg, **kw):
    if kw:
        msg += " | " + ", ".join(f"{k}={_short(v)}" for k, v in kw.items())
    raise Violation(msg)


def _short(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + "..."


def need(cond, msg, **kw):
    if not cond:
        fail(msg, **kw)


def blame(exc):
    """Is the library (rather than the harness) responsible for the exception?"""
    who, last, inner = None, "", ""
    tb = exc.__traceback__
    while tb is not None:
        f = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if f.startswith(PKG):
            who = True
        elif f.startswith(VERIF + os.sep) and f not in NEUTRAL:
            who = False
        last = f
        inner = f if f.startswith(VERIF + os.sep) else inner
        tb = tb.tb_next
    # a result of the library which cannot be differentiated shows in the engine, outside its code
    if last.endswith(("torch/autograd/graph.py", "torch/autograd/__init__.py")) and not inner.endswith("tref.py"):
        return isinstance(exc, RuntimeError)
    return bool(who)


def case_rng(seed, prop, idx):
    import numpy as np

    return np.random.default_rng([seed & 0xFFFFFFFF, int(prop[1:]), idx])


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def run_case(mod, case, obs):
    """Returns (verdict, message): 'ok', 'skip', 'violation', 'error'."""
    import torch

    torch.manual_seed(case.get("seed", 0) if isinstance(case, dict) else 0)
    torch.set_default_dtype(torch.float32)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(getattr(mod, "CASE_TIMEOUT", 240)))
    try:
        mod.run(case, obs)
        return "ok", ""
    except Skip as e:
        return "skip", str(e)
    except Violation as e:
        return "violation", str(e)
    except (CaseTimeout, MemoryError) as e:
        return "error", f"{type(e).__name__} in case"
    except Exception as e:
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        if blame(e):
            return "violation", f"library raised {type(e).__name__}: {str(e)[:300]}\n{text}"
        return "error", text
    finally:
        signal.alarm(0)
        torch.set_default_dtype(torch.float32)


def _worker(args):
    modname, prop, seed, tier, idxs = args
    import torch

    torch.set_num_threads(1)
    mod = importlib.import_module(modname)
    obs, viol, errs, samples, skips, n = Obs(), [], [], [], 0, 0
    for idx in idxs:
        try:
            case = mod.gen(case_rng(seed, prop, idx), tier, idx)
            case = json.loads(json.dumps(case))
        except Exception as e:
            errs.append((idx, "gen: " + traceback.format_exc()))
            continue
        o = Obs()
        verdict, msg = run_case(mod, case, o)
        n += 1
        obs.merge(o)
        if verdict == "violation":
            viol.append((idx, case, msg))
        elif verdict == "error":
            errs.append((idx, msg))
        elif verdict == "skip":
            skips += 1
        elif len(samples) < 2 and o.nontriv:
            samples.append({"index": idx, "case": case, "observed": {**dict(o.count), **o.note}})
        if len(viol) >= 3 or len(errs) >= 5:
            break
    return obs, viol, errs, samples, skips, n


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    data = json.load(open(path)) if os.path.exists(path) else {}
    return [f for f in data.get("findings", []) if f["property"] == prop]


def check_import():
    import torchmps

    f = os.path.abspath(torchmps.__file__)
    if not f.startswith(PKG):
        raise SystemExit(f"torchmps imported from {f}, not {PKG}")


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--index", type=int)
    ap.add_argument("--n", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("RTM_JOBS", "8")))
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    prop = a.prop
    t0 = time.time()
    modname = f"checks.{prop.lower()}"
    try:
        check_import()
        import torch

        torch.set_num_threads(1)
        mod = importlib.import_module(modname)
    except Exception:
        traceback.print_exc()
        print(f"INCONCLUSIVE property={prop} cannot import the library or the check")
        return 2

    if a.replay or a.index is not None:
        if a.replay:
            case = json.load(open(a.replay))["case"]
        else:
            case = json.loads(json.dumps(mod.gen(case_rng(seed, prop, a.index), tier, a.index)))
        print(json.dumps(case))
        obs = Obs()
        verdict, msg = run_case(mod, case, obs)
        print(verdict, msg, dict(obs.count), obs.maxima)
        if verdict == "violation":
            print(f"VIOLATION property={prop} replay={a.replay}")
        return {"ok": 0, "skip": 0, "violation": 1}.get(verdict, 2)

    total = a.n or mod.CASES[tier]
    chunk = max(1, min(getattr(mod, "CHUNK", 16), total // (a.jobs * 4) or 1))
    # interleave so that expensive cases spread over the workers
    nchunks = (total + chunk - 1) // chunk
    jobs = [(modname, prop, seed, tier, list(range(k, total, nchunks))) for k in range(nchunks)]
    obs, viol, errs, samples, skips, n = Obs(), [], [], [], 0, 0
    deadline = t0 + (820 if tier == "quick" else 3600 * 6)
    timed_out = False
    pool = mp.get_context("fork").Pool(a.jobs, maxtasksperchild=None)
    try:
        it = pool.imap_unordered(_worker, jobs)
        done = 0
        while done < len(jobs):
            try:
                o, v, e, s, sk, k = it.next(timeout=max(1.0, deadline - time.time()))
            except mp.TimeoutError:
                timed_out = True
                break
            done += 1
            obs.merge(o)
            viol += v
            errs += e
            samples += s
            skips += sk
            n += k
            if len(viol) >= 3:
                break
    finally:
        pool.terminate()
        pool.join()

    viol.sort(key=lambda v: v[0])
    known = known_findings(prop)
    match = getattr(mod, "known", lambda case, msg: None)
    new, seen_known = [], {}
    for idx, case, msg in viol:
        key = match(case, msg)
        hit = next((f for f in known if key is not None and f["key"] == key), None)
        if hit:
            seen_known[hit["key"]] = hit
        else:
            new.append((idx, case, msg))
    for f in known:
        print(f"KNOWN-FINDING: property={prop} {f['what']}")

    minimum = getattr(mod, "MIN", {}) or {}
    scale = n / total if total else 1
    # minima are stated for the quick tier with its full number of cases
    short = {k: (obs.count[k], v) for k, v in minimum.items() if obs.count[k] < v * min(1, scale)}
    code = 0
    if new:
        code = 1
    elif timed_out or errs or short:
        code = 2

    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len(obs.nontriv),
            "rule": mod.RULE,
            "samples": sorted(samples, key=lambda s: s["index"])[:3] or [{"note": "no case completed"}],
            "events_observed": dict(sorted(obs.count.items())),
            "distinct_states": len(obs.states),
            "largest": {k: v for k, v in sorted(obs.maxima.items())},
            "skipped_by_oracle": skips,
            "harness_errors": len(errs),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", [])
        + ["torch and NumPy float64 arithmetic are trusted as the reference"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    if new:
        d = os.path.join(OUT, "replays")
        os.makedirs(d, exist_ok=True)
        idx, case, msg = new[0]
        path = os.path.join(d, f"{prop}-{tier}-{seed}-{idx}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "case": case, "message": msg, "seed": seed, "tier": tier,
                       "replay": f"bin/check {prop} --replay {path}"}, f, indent=1)
        print(f"[{prop}] case {idx}: {msg[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
    elif code == 2:
        for idx, msg in errs[:2]:
            print(f"[{prop}] harness error in case {idx}: {msg[:1500]}")
        print(f"INCONCLUSIVE property={prop} timed_out={timed_out} errors={len(errs)} below_minimum={short}")
    else:
        print(f"HELD property={prop} cases={n} nontrivial={len(obs.nontriv)} states={len(obs.states)} "
              f"events={sum(obs.count.values())} wall={time.time() - t0:.1f}s")
    return code
