#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the suites that exist."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import suites
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(V + "/properties.jsonl")]
NOTE = ("The specification is model checked exhaustively within small constants; the code is bound to it by having TLC "
        "accept every recorded execution of specification-generated and random histories. Trusts TLC, the recording "
        "driver (which only calls the public API and logs) and the sampled schedules/inputs stated in the evidence.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in suites.CHECKS:
        checks.append(dict(property=i, quick_cmd=f"python3 tools/check.py {i} quick",
                           thorough_cmd=f"python3 tools/check.py {i} thorough",
                           evidence_file=f"evidence/{i}.json",
                           technique="TLA+ specification checked with TLC; " + suites.TECH.get(
                               i, "spec-generated behaviours replayed into the code, recorded traces validated by TLC"),
                           level="model_checking", level_note=suites.NOTES.get(i, NOTE)))
    else:
        na.append(dict(property=i, reason="no check yet (work in progress)"))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na),
          open(V + "/MANIFEST.json", "w"), indent=1)
