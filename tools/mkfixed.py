"""Writes the list of repaired defects into known_findings.json (the findings list is kept by hand)."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
    "batch size of the current": "C09", "input regions with": "C07", "adaptive MPS with a single": "C11",
    "tensor as the path": "C07", "module feature map": "C18", "double precision in MPS": "C20",
    "pad TI_MPS": "C08", "realify tolerance": "C06", "trig_embed": "C16", "load_HV_data": "C25",
    "exactly zero product": "C06", "refuse inputs": "C24", "slim evaluation of batches": "C03",
    "lambda matrices of a different": "C20", "log norm of models": "C06", "both a bias matrix": "C02",
    "trainable embeddings": "C17", "lambda matrix of small": "C16", "rectangular slices": "C21",
    "normal_init": "C21", "svd_flex of complex": "C14", "products of scalars": "C26",
    "evaluation of empty sequences": "C08", "concurrent evaluation": "C10", "expand torch scalars": "C26",
    "rescaling of zero": "C11", "failed change of the merge": "C22", "state dicts of": "C19",
    "two input sites": "C11", "boundary vector without": "C05", "vector inputs of a different": "C20",
    "failing call of": "C22", "scale the product of a matrix region": "C26", "joint_shuffle corrupted": "C25",
    "density matrix non-Hermitian": "C27", "refuse empty lists": "C26", "leave the list": "C26", "override slim_eval": "C03",
    "slices of an input region": "C31", "raw sequences": "C08",
}
path = os.path.join(V, "known_findings.json")
data = json.load(open(path)) if os.path.exists(path) else {"findings": []}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        p = next((v for k, v in PROP.items() if k in s), None)
        assert p, s
        fixed.append(f"fixed: property={p} {h} {s[5:]}")
json.dump({"findings": data["findings"], "fixed": fixed}, open(path, "w"), indent=1)
