#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the property files that exist"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + "/check").read(); PF = eval(re.search(r"PROPFILE = (\{.*?\})", src, re.S).group(1))
TECH = {
 "F01": "property-based testing against a shift-and-xor field model (all elements for small degrees)", "F02": "property-based testing of defining identities; exhaustive table comparison",
 "B01": "property-based testing: generated bilinear maps against polynomial multiplication", "D01": "property-based testing with forked children: mismatched calls must abort",
 "S01": "stateful model-based property testing with shrinking of histories", "Z01": "generated-input fuzzing of every entry point under AddressSanitizer",
 "Z02": "generated histories repeated under an allocation-counting allocator", "Q01": "property-based round-trip testing (print, parse)", "N01": "metamorphic property-based testing (repeat, alias, perturbed memory)",
"A01": "property-based testing with injected allocation faults in forked children",
"U01": "generated-input fuzzing of every entry point under undefined-behaviour instrumentation", "H01": "property-based testing over generated schedules of cooperative threads, against a reference model", "V01": "property-based testing of generated cases of all other properties against their oracles, in two differently configured builds", "L02": "metamorphic property-based testing (peak heap and stack at s, 2s, 4s, 8s)", "L01": "metamorphic property-based testing (work at s, 2s, 4s, 8s) on a block-counting build",
 "C01": "property-based round-trip and model testing", "W01": "metamorphic property-based testing: views against stand-alone copies, confinement snapshots",
}
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    if os.path.exists(V + "/harness/props/%s.cpp" % PF[i]):
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
          "technique": TECH.get(i, "property-based testing against a reference model, with shrinking; thorough adds coverage-guided fuzzing"),
          "level": "exploration", "level_note": "Random and structured generated cases with an independent oracle; no exhaustiveness claim. Trusts the reference model in harness/model.hpp, gcc, and libm4ri (external, also used uninstrumented)."})
    else: na.append({"property": i, "reason": "check not written yet"})
json.dump({"version": 1, "setup_cmd": "./check all", "checks": checks, "not_applicable": na,
  "notes": "No hooks are needed: the drivers compile /repo/src directly."}, open(V + "/MANIFEST.json", "w"), indent=1)
