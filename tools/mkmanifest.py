"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {
    "C38": "Convergence and descent of a numerical minimisation depend on run-time numbers along an unbounded iteration; no static argument in reach bounds them. The static parts (gradients, rotations, routing, stopping rule, search direction, line search) are C18, C19, C20, C42 and C43.",
    "C40": "Whether a number of printed digits is enough depends on the magnitude of run-time values and on what accuracy a user needs; the static part (every value reaches the file and is read back into its place) is C23, C24 and C29.",
}
GVN = "abstract interpretation of the source (gated value numbering, BDD guards, alias analysis)"
TECH = {}
LEVEL_NOTE = ("Sound up to the modelled library semantics (numpy, wulfric, scipy, h5py) and general position of symbolic inputs; loops run over "
              "abstract collections that contain one member of every class of term the code can distinguish, so the number of terms is bounded, their values are not.")
NOTES = {}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        f = os.path.join(HERE, "sa", "checks", i.lower() + ".py")
        if os.path.exists(f) and i not in NA:
            m = importlib.import_module(f"sa.checks.{i.lower()}")
            checks.append({"property": i, "quick_cmd": f"python3-vt check.py {i}", "thorough_cmd": f"python3-vt check.py {i} --tier thorough",
                           "technique": getattr(m, "TECHNIQUE", GVN), "level": "other", "level_note": getattr(m, "LEVEL_NOTE", LEVEL_NOTE)})
        else:
            na.append({"property": i, "reason": NA.get(i, "no check built yet")})
    json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import numpy'", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "not applicable")


main()
