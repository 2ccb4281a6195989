#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks that exist."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(here, "..", "py")); sys.dont_write_bytecode = True
import checks, checks2, checks3, checks4, checks5, checks6
TV = "TLA+ specification with TLC: trace validation of the real code against the spec"
TECH = checks.TECH if hasattr(checks, "TECH") else {}
NOTE = "Holds on every scenario explored (enumerated discrete configurations x seeded continuous parameters): each recorded step of the real code must be a step of the TLA+ specification, evaluated by TLC in binary64 arithmetic. Trusts TLC, the Reals64 override and the recording harness; rounding tolerance as stated in the spec module."
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
NA = getattr(checks, "NA", {})
m = {"version": 1, "setup_cmd": "bin/check --setup",
     "hooks": {"guard": "none", "enable": "no hooks needed: the harness uses the public API and the real binary", "source_commits": []},
     "checks": [{"property": i, "quick_cmd": "bin/check %s" % i, "thorough_cmd": "bin/check %s --tier thorough" % i,
                 "technique": TECH.get(i, TV), "level": checks.LEVEL.get(i, "model_checking"), "level_note": getattr(checks, "NOTES", {}).get(i, NOTE)} for i in ids if i in checks.CHECKS],
     "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in checks.CHECKS]}
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
