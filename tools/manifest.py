#!/usr/bin/env python3
# Writes MANIFEST.json from the table below.
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T="contract-based deductive verification of the real Go code (gocv: VCs from go/ssa, z3/cvc5), bounded native runs of the same property as replay"
claimed=json.load(open(os.path.join(V,'tools','claims.json')))
props=[json.loads(l) for l in open(os.path.join(V,'properties.jsonl'))]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in claimed['claims']:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}","evidence_file":f"evidence/{i}.json","technique":T,"level":"proof","level_note":claimed['claims'][i]})
    else:
        na.append({"property":i,"reason":claimed['na'].get(i,"no contract for this property is discharged yet")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,"notes":"See DESIGN.md. No hooks in /repo: contracts are laid over the packages with go/packages overlays and go test -overlay."}
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1,ensure_ascii=False)
