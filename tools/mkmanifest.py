#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json
c = json.load(open("/verif/checks.json"))
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in c and not c[i].get("disabled"):
        k = c[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
            technique=k.get("technique", "contract-based deductive verification of the Go code (own VC generator over go/ssa, z3+cvc5), with bounded runtime contract checks"),
            level=k.get("level", "proof"), level_note=k.get("note", "")))
    else:
        na.append(dict(property=i, reason=c.get(i, {}).get("na", "contracts for this property are not written yet")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
    notes="check.py decides one property: gowp generates and discharges the obligations of /verif/contracts from /repo's current source; the bounded runtime contracts in /verif/rt run through a build overlay. No hooks in /repo."), open("/verif/MANIFEST.json", "w"), indent=1)
