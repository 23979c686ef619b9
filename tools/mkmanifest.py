#!/usr/bin/env python3
"""Regenerates MANIFEST.json."""
import json
V = '/verif/'
TECH = {}
E1 = "explicit-state exploration of a reference model, every transition replayed on the real library"
NOTE_E1 = ("Exhaustive within the stated alphabet, seeds and depth; every explored transition is executed on a real instance "
           "and all observables compared. Trusts the reference model (mc/core.h) and says nothing beyond the bounds.")
def e1(*ids):
    for i in ids:
        TECH[i] = (E1, "model_checking", NOTE_E1)
e1("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P20")
exec(open(V + 'tools/claims.py').read())
props = [json.loads(l) for l in open(V + 'properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in TECH:
        t, l, n = TECH[i]
        checks.append({"property": i, "quick_cmd": f"bash ./check.sh {i} quick", "thorough_cmd": f"bash ./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash ./build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: the checks build its working tree with build settings of their own. Genuine defects and their fixes are in known_findings.txt."}
json.dump(m, open(V + 'MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
