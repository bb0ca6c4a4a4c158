"""Writes MANIFEST.json: every property with a check is claimed."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
TECH = {
    "default": "runtime monitoring: seeded workloads on the real library, every observed result judged by an independent float64 reference oracle with running error bounds",
    "C09": "runtime monitoring: bitwise/tolerance comparison of observed rows and call histories (metamorphic oracle over recorded runs)",
    "C10": "runtime monitoring: controlled thread scheduler yielding at every library line and tensor operation, results of each thread compared with its serial run; free-running stress threads",
    "C12": "runtime monitoring: online checker of the merge-state trace specification over call histories",
    "C13": "runtime monitoring: online checker of parameter identity and optimizer effect over training histories",
    "C18": "runtime monitoring: online checker of registration histories against a reference automaton",
    "C19": "runtime monitoring: lock-step comparison of original and restored models over continued histories",
    "C21": "runtime monitoring: exact and statistical oracles over recorded initializer outputs",
    "C22": "runtime monitoring: bitwise state snapshots, write watching at dispatch level and fault injection at every k-th call",
    "C24": "runtime monitoring: hostile inputs with an oracle that classifies each as valid or not; acceptance of an invalid one is the violation",
    "C29": "runtime monitoring: dispatch-level recording of every tensor operation and its result size, checked against the documented cost profile",
    "C30": "runtime monitoring: allocator bytes in use and tracked object counts read after every window of repeated operations; growth in every window is a leak",
    "C31": "runtime monitoring: outputs, gradients, lengths and norms of randomly composed module chains compared with a NumPy/float64 contraction of the observed modules",
    "C32": "runtime monitoring: parameters and reported sizes inspected after construction and after every step of random histories against the configuration; bitwise comparison of default and explicit construction",
    "C33": "runtime monitoring: the script runs on synthetic images with hooks on model calls and optimizer steps; an offline checker replays the recorded log (images as multisets, gradients, an own Adam, printed averages)",
    "C34": "runtime monitoring: the same program run twice under disturbances (other seeds, other models, threads, another process); the recorded tensors and generator states are compared bit by bit",
    "C35": "runtime monitoring: bitwise snapshots of every other member of a pool of models around each operation on one, and a storage map checked for overlaps after each",
    "C36": "runtime monitoring: lock-step comparison of models inside a parent module with copies called alone, over random histories",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append({
            "property": i, "quick_cmd": f"bin/check {i} --tier quick", "thorough_cmd": f"bin/check {i} --tier thorough",
            "technique": TECH.get(i, TECH["default"]), "level": "exploration",
            "level_note": "holds on every observed execution of a seeded, diverse workload; nothing is proved beyond the executions observed",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
