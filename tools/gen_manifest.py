#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry and the list of properties that are not claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import registry

NA = {
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in registry.PROPS:
        continue
    s = registry.PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py --property %s --tier quick" % i,
        "thorough_cmd": "python3 check.py --property %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "symbolic execution of the code's LLVM IR, path conditions and assertions decided by Z3",
        "level": "model_checking",
        "level_note": "Holds for every value within the bounds: %s. Assumes: %s. Counterexamples are replayed on the natively "
                      "compiled code, path witnesses are compared with it." % (s.bounds, "; ".join(s.assumptions)),
    })
na = [{"property": i, "reason": NA.get(i, "no check built yet")} for i in ids if i not in registry.PROPS]
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "hooks": {"guard": "IEOMPP_VERIFY", "enable": "harness/c32_reference.cpp defines it before including the program",
                     "source_commits": ["14063aaf06474eef8dda209fa63f5a05b9979aa0"]},
           "notes": "see DESIGN.md; known_findings.txt lists repaired and recorded defects"},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
