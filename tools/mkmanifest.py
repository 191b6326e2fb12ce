"""Writes MANIFEST.json from sim/config.py and the list below."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, "sim"))
sys.dont_write_bytecode = True
import config

NA = {
 "C20": "pure functions of colour values and bit patterns: no schedule, clock, fault, I/O or "
        "interleaving for a simulator to control; generating inputs would not be simulation",
 "C21": "pure address arithmetic over a finite domain with no history: enumeration or unit tests "
        "decide it, a simulator adds nothing",
}
NOT_BUILT = "no check built yet (see DESIGN.md for how it will be decided)"
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in config.CHECKS:
        c = config.CHECKS[i]
        checks.append({
            "property": i, "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "technique": "deterministic simulation with seeded schedule and fault search",
            "level": "exploration",
            "level_note": "Seeded search over %s; every run is a pure function of its recorded choices. Trusts: %s." % (
                c["rule"].split(";")[0], "; ".join(c["stubs"]))})
    else:
        na.append({"property": i, "reason": NA.get(i, NOT_BUILT)})
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is reached by replacing modules, sockets, locks, files and clocks from outside (sim/)."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
