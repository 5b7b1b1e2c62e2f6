#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the table below.
import json,subprocess
NA={}
CLAIM=open('/verif/tools/claimed.txt').read().split()
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIM:
        checks.append(dict(property=i,quick_cmd=f"/verif/check.sh {i}",thorough_cmd=f"/verif/check.sh {i} -thorough",
          technique="solver-based checking: symbolic execution of the repository's Go SSA, assertions decided by z3/cvc5 within bounds, counterexamples replayed on the real code",
          level="model_checking",level_note="decided for every value within the bounds stated by the evidence file; nothing is claimed outside them"))
    else:
        na.append(dict(property=i,reason=NA.get(i,"no check yet")))
json.dump(dict(version=1,setup_cmd="/verif/setup.sh",checks=checks,not_applicable=na),open('/verif/MANIFEST.json','w'),indent=1)
