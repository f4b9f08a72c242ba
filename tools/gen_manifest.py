#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, bin/spec.py and the reasons below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from spec import SPEC
NA = {}
TECH = {"exploration": "bounded exhaustive enumeration of inputs on the real code against a reference model",
        "model_checking": "stateless model checking of the real code: every operation sequence up to a depth, lock-step with a reference model",
        "fault_enumeration": "exhaustive allocation-fault injection: every operation, every allocation point"}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in SPEC:
        s = SPEC[p]
        checks.append(dict(property=p, quick_cmd="python3 bin/check.py %s --quick" % p,
                           thorough_cmd="python3 bin/check.py %s --thorough" % p,
                           evidence_file="evidence/%s.json" % p,
                           technique=s.get("technique", TECH[s["level"]]), level=s["level"],
                           level_note=("Exhaustive within: " + s["bounds"] + ". Assumes: " + "; ".join(s["assumptions"])
                                       + ". Trusts g++, the sanitizers and the reference model in h/.")))
    else:
        na.append(dict(property=p, reason=NA.get(p, "check not built yet")))
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo are needed: ETR is header-only; the harnesses in h/ include it and own allocation, "
               "streams, caller memory and scheduling from outside. bin/check.py --replay FILE re-runs a recorded violation.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
