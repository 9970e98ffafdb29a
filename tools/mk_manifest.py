#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the contract modules present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = ("contract-based deductive verification: pre/postconditions and representation invariants on the real functions; the "
        "verification conditions are generated from /repo's current source (jaxpr of the real public function, loops unrolled to "
        "proved termination) and discharged by z3/cvc5; counter-models are replayed on the real code")
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json"))) if os.path.exists(os.path.join(HERE, "tools", "notes.json")) else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "contracts", f"{i}.py")):
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=n.get("technique", TECH), level=n.get("level", "proof"),
                           level_note=n.get("note", "every obligation is proved for all contents/states, at each listed shape instance or (cases named 'any size') for all sizes at once; bounded contract evaluations of larger sizes are reported separately and never counted as proved")))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get("na", "contracts for this property are not built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="no hooks in /repo; checks read /repo's current working tree directly (PYTHONPATH)"),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
