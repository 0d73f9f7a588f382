"""Writes /verif/MANIFEST.json from the check modules present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = ("symbolic execution of the real code (PyTensor graphs it builds / its numpy code) with all inputs symbolic; "
        "obligations decided by z3 (nonlinear real arithmetic) over exact normal forms; counterexamples replayed")
NOTE = ("Decides the property for all values of the symbolic inputs within the stated sizes; real arithmetic stands "
        "for doubles; compiled exoplanet_core kernels enter by contract.")
NA = {
    "C39": "the inputs are subsets and orders of a fixed set of component names, and the code only moves constant strings between "
           "dictionaries: there is no symbolic value for a solver to decide, only concrete runs to enumerate",
    "C40": "the kernels are compiled C++ of the external package exoplanet_core; their source is not in /repo, and "
           "machine-precision accuracy of transcendental floating-point code is beyond the solvers available",
    "C41": "convergence of MCMC is a statistical statement about random histories; there is no finite symbolic "
           "execution of it",
    "C42": "the module is documented as not working; it relies on numerical integration of pymc random variables, "
           "which has no encoding here",
    "C43": "floating-point error bounds of transcendental expressions would need an IEEE encoding of sin, cos, "
           "arctan2, roots; z3/cvc5 have no theory for them",
}
OVERRIDE = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i + ".py")):
        checks.append(dict(property=i, quick_cmd="/opt/venv/bin/python run.py " + i,
                           thorough_cmd="VERIF_TIER=thorough /opt/venv/bin/python run.py " + i,
                           technique=TECH, level="other", level_note=NOTE + OVERRIDE.get(i, "")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check under construction")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -B tools/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
