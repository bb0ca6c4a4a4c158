"""Writes DESIGN.md from the parts below, the rules stated in the checks and tools/catches.json."""
import glob
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, "/repo")
import importlib

PROPS = [json.loads(l) for l in open(V + "/properties.jsonl")]
KF = json.load(open(V + "/known_findings.json"))
CATCH = json.load(open(V + "/tools/catches.json")) if os.path.exists(V + "/tools/catches.json") else {}
WALL = json.load(open(V + "/tools/wall.json")) if os.path.exists(V + "/tools/wall.json") else {}

ORACLE = {
    "C01": "NumPy float64/complex128 product of the model's current parameters, kept as mantissa and exponent; tolerance from a running error analysis of the product",
    "C02": "summed exp of the observed log probabilities over all sequences (discrete) or over a quadrature grid of the domain (continuous) against 1",
    "C03": "the options against each other and against the reference; gradients with reference sensitivities; sets of accepted inputs compared",
    "C04": "twin models with the same parameters but another parallel flag; outputs and gradients",
    "C05": "NumPy matmul in order with explicit broadcasting",
    "C06": "the same product in NumPy with integer exponents kept apart, so nothing over- or underflows",
    "C07": "own tensor-network contraction in float64 from the observed parameters",
    "C08": "own contraction sequence by sequence",
    "C09": "the same row alone, in other batches, after other calls, and the reference",
    "C10": "the sequential run of each thread's program",
    "C11": "NumPy SVD of each merged core before the change predicts the function after it",
    "C12": "sequential model of the schedule and NumPy spectra of the merged cores",
    "C13": "identity log of parameter objects, finite prediction of the effect of one optimizer step",
    "C14": "NumPy SVD in float64/complex128",
    "C15": "own double-precision functions (rtm/tref.py) differentiated by autograd, tied to the observed values, plus central differences",
    "C16": "NumPy sums and trapezoids over the domain; closed formulas for the built-in embeddings",
    "C17": "normalization recomputed from the embedding's current parameters after every update; sum over the domain",
    "C18": "an automaton holding the map which should be in force; elementwise application",
    "C19": "lock-step continuation of original and restored model on the same inputs",
    "C20": "float64 references with double-precision tolerances; types of all results",
    "C21": "structure checks, seed twins, and statistics with false-alarm probability below 1e-9 for each",
    "C22": "bitwise snapshots before and after; a copy taken before the fault, run on in parallel",
    "C23": "np.broadcast_shapes and np.broadcast_to",
    "C24": "a classifier of inputs and configurations written from the documentation; every option must refuse",
    "C25": "multisets of bit patterns taken before and after",
    "C26": "NumPy einsum over the labelled chain, for every grouping",
    "C27": "NumPy doubled transfer matrices (and plain enumeration for small cases)",
    "C28": "NumPy slices and amplitudes",
    "C29": "recorded operations: counts and result sizes as n doubles",
    "C30": "bytes in use by the C allocator and number of tracked objects after each of several equal windows",
    "C31": "own contraction of the modules as observed (tensors, biases)",
    "C32": "expected parameter list and sizes from the configuration; bitwise equal construction",
    "C33": "an offline checker replaying the log of model calls and optimizer steps",
    "C34": "the first of the two runs; bit by bit for initial tensors and generator states",
    "C35": "the bystanders' own state and outputs before the operation; the storages of all tensors; at the end the reference of C01",
    "C36": "copies of the models called alone, which follow the same history by explicit calls",
}

HEAD = open(V + "/tools/design_head.md").read()
TAIL = open(V + "/tools/design_tail.md").read()


def main():
    out = [HEAD]
    out.append("## The properties, one by one\n")
    for p in PROPS:
        i = p["id"]
        m = importlib.import_module("checks." + i.lower())
        bugs = sorted(os.path.basename(d) for d in glob.glob(V + f"/seeded/{i.lower()}-*"))
        out.append(f"### {i}: {p['title']}\n")
        out.append(f"* Specified: {p['statement']}")
        out.append(f"* Workload and monitor: {' '.join(m.RULE.split())}.")
        out.append(f"* Oracle: {ORACLE[i]}.")
        c = m.CASES
        w = WALL.get(i)
        out.append(f"* Bounds and cost: {c['quick']} seeded cases (quick), {c['thorough']} (thorough), other ones for every "
                   f"`VERIF_SEED`" + (f"; the quick tier takes about {w} s on 8 idle cores" if w else "") + ".")
        out.append(f"* Why tests cannot: {p['why_tests_cant']}")
        if bugs:
            out.append("* Planted bugs: " + ", ".join(bugs) + ".")
        out.append("")
    out.append(TAIL)
    if CATCH:
        out.append("## Which checks catch which planted bugs\n")
        out.append("Quick tier, one seed, all checks on every bug (the bug's own check in bold if it catches it).\n")
        out.append("| planted bug | caught by |\n|---|---|")
        for b in sorted(CATCH):
            own = b.split("-")[0].upper()
            out.append(f"| {b} | " + ", ".join(f"**{c}**" if c == own else c for c in CATCH[b]) + " |")
        out.append("")
    out.append("## Defects found and repaired\n")
    out.append("Each is one `fix:` commit in /repo, listed in `known_findings.json`; the check of the property reports the "
               "violation again when the commit is reverted. No defect is left as a known finding.\n")
    for l in KF["fixed"]:
        out.append("* " + re.sub(r"^fixed: ", "", l))
    open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")


main()
