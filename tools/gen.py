#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py; checks the ids against checks/specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "tools"), os.path.join(V, "checks")]
import props, specs
SEEN = set()
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in props.PROPS:
        assert q["id"] not in SEEN and len(q["title"]) <= 80, q["id"]
        SEEN.add(q["id"])
        f.write(json.dumps({k: q[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
TECH = "bounded symbolic execution of the real C code with CBMC (SAT/SMT)"
man = {"version": 1, "setup_cmd": "python3 vt/vt.py setup", "checks": [], "not_applicable": []}
for q in props.PROPS:
    if q["id"] in specs.SPECS:
        man["checks"].append({
            "property": q["id"], "quick_cmd": "python3 vt/vt.py check " + q["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 vt/vt.py check " + q["id"],
            "evidence_file": "evidence/%s.json" % q["id"],
            "technique": TECH, "level": "other",
            "level_note": "Bounded: decided by the solver for every input within the stated bounds; unwinding assertions on, "
                          "counterexamples and reachability witnesses re-executed in the real gcc build. " + q["note"]})
    else:
        man["not_applicable"].append({"property": q["id"], "reason": q["na"] or "no check built yet"})
for i in specs.SPECS:
    assert i in SEEN, "no property text for " + i
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "checks,", len(man["not_applicable"]), "not applicable")
