#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/jobs.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import jobs
NA = {"C20": "the binding is nanobind/CPython glue; nanobind is not installed, so the code cannot be compiled here and there is no IR to execute symbolically"}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
checks = []
for i in ids:
    if i in NA: continue
    if i not in jobs.PROPS: NA[i] = "no check yet"; continue
    p = jobs.PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
        technique="symbolic execution of the library's LLVM IR with Z3 deciding every branch, memory access and assertion; counterexamples replayed on the real build",
        level="model_checking",
        level_note="Holds for every value within: " + p["bounds"] + ". Assumes: " + "; ".join(p["assumptions"] + jobs.COMMON_ASSUMPTIONS) + "."))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())]), open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", list(NA))
