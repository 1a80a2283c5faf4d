#!/usr/bin/env python3
# writes /verif/MANIFEST.json from properties.jsonl and the table below
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
exec(open(os.path.join(here, "tools", "claims.py")).read())
checks = []
for i in ids:
    if i in CLAIMS:
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": "contracts on the Go functions, verified deductively (SSA to SMT, z3/cvc5)", "level": "other" if i == "C14" else "proof", "level_note": CLAIMS[i]})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": [{"property": i, "reason": NA.get(i, "not yet under contract")} for i in ids if i not in CLAIMS],
     "notes": "See DESIGN.md. Genuine defects found and repaired are listed in known-findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
