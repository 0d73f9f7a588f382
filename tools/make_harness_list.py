#!/usr/bin/env python
"""Writes HARNESSES.md: every harness of every check with its bounds."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
props = {p["id"]: p for p in map(json.loads, open(os.path.join(HERE, "properties.jsonl")))}
out = ["# Harnesses and bounds", "",
       "Generated by tools/make_harness_list.py. Inputs named in the bounds are symbolic: the verdict is for all their values.", ""]
for pid in sorted(props):
    if not os.path.exists(os.path.join(HERE, "checks", pid + ".py")):
        continue
    m = importlib.import_module("checks." + pid)
    out += ["## %s %s" % (pid, props[pid]["title"]), ""]
    for h in m.HARNESSES:
        out.append("- `%s`: %s%s" % (h["name"], h.get("bounds", ""), " (thorough only)" if h.get("thorough_only") else ""))
    out.append("")
open(os.path.join(HERE, "HARNESSES.md"), "w").write("\n".join(out))
