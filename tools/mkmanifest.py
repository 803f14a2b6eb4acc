#!/usr/bin/env python3
# writes /verif/MANIFEST.json; CLAIMED lists the properties with a check, NA the others with the reason
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {p['id']: p for p in map(json.loads, open(os.path.join(here, 'properties.jsonl')))}
exec(open(os.path.join(here, 'tools', 'claims.py')).read())
TECH = ("contract-based deductive verification of the real Go functions: contracts type-checked in place through an overlay, "
        "verification conditions generated from the SSA of /repo's current source for all inputs and iterations, "
        "discharged by the normaliser, z3 and cvc5; failed obligations replayed natively against the real code")
checks, na = [], []
for i in sorted(props):
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "technique": TECH + (". " + CLAIMED[i][1] if len(CLAIMED[i]) > 1 else ""), "level": "proof", "level_note": CLAIMED[i][0]})
    else:
        na.append({"property": i, "reason": NA[i]})
json.dump({"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": na}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
