#!/usr/bin/env python3
import json, sys
sys.path.insert(0, "/verif")
from props import PROPS, NA, NOTES
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS: continue
    p = PROPS[i]
    pr = p["level"] == "proof"
    checks.append({"property": i, "quick_cmd": f"python3-vt check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3-vt check.py {i}", "evidence_file": f"evidence/{i}.json",
                   "technique": p.get("technique") or ("contract-based deductive verification of the extracted C++ (VC generation, z3/cvc5)" if pr else
                                                        "contracts on the extracted C++ discharged by z3/cvc5 for the helpers, bounded executable check of the remaining function"),
                   "level": p["level"], "level_note": p.get("note") or NOTES[p["level"]]})
na = [{"property": i, "reason": NA.get(i, "not claimed yet: its contracts are under construction")} for i in ids if i not in PROPS]
json.dump({"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. Every check re-extracts /repo's current sources, re-generates and re-discharges all obligations, and replays counterexamples on the compiled current code."}, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
