#!/usr/bin/env python3
# Writes /verif/MANIFEST.json. CLAIMED: property -> (what is proved, what is left).
import json
TECH="contract-based deductive verification of the Go source (contracts in /verif/contracts; condition generator over go/ssa; z3 and cvc5)"
exec(open('/verif/tools/claims.py').read())
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        checks.append({"property":i,"quick_cmd":"bash check.sh %s quick"%i,"thorough_cmd":"bash check.sh %s thorough"%i,"technique":TECH,"level":"proof","level_note":CLAIMED[i]})
    else:
        na.append({"property":i,"reason":NA.get(i,"not claimed yet: contracts under construction")})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
   "notes":"No hooks in /repo: contracts live in /verif/contracts and are applied to the sources as they are. The replay harness (/verif/replay) enters through go test -overlay."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
open('/verif/MANIFEST.json','a').write('\n')
