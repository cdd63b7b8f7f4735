#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from jobs.py (claimed = has jobs) and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import jobs as JT
NA = {
 "X01": "these formats are produced and parsed by libxml2, HDF5 and QIO/LIME, external C libraries whose sources are not in this repository (and none is enabled in this build beyond libxml2); their code cannot be encoded by the executor, and with them stubbed out nothing of the property is left to decide",
}
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
have = {j["prop"] for j in JT.JOBS}
checks, na = [], []
for p in props:
    if p in have and p not in NA:
        fpa = any(j["mode"] == "fpa" for j in JT.JOBS if j["prop"] == p)
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
          "technique": "symbolic execution of LLVM IR compiled from /repo's sources, assertions decided by z3" + (" (bit-precise floating point where stated)" if fpa else ""),
          "level": "model_checking",
          "level_note": ("Bounded: " + JT.BOUNDS.get(p, "see DESIGN.md") + ". " if True else "") + "Trusts clang's front end, the executor and z3; every counterexample is replayed on the natively compiled sources before it is reported, and passing paths are cross-checked against native runs."})
    else: na.append({"property": p, "reason": NA.get(p, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
  "notes": "The checks need no hooks in /repo. fix: commits in /repo are listed in known_findings.json."}, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable:", [x["property"] for x in na])
