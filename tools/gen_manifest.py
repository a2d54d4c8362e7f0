#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the list of what is claimed.
import json,os,subprocess
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
claimed=json.load(open(V+'/tools/claimed.json'))
na=json.load(open(V+'/tools/not_applicable.json'))
checks=[];rest=[]
for p in props:
    i=p['id']
    if i in claimed:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
            "technique":"deterministic simulation with fault injection (seeded search over schedules, network and faults)",
            "level":"exploration","level_note":claimed[i]})
    else:
        rest.append({"property":i,"reason":na.get(i,"no check built yet")})
m={"version":1,"setup_cmd":"tools/build.sh","checks":checks,"not_applicable":rest,
   "notes":"No hooks in /repo: the simulator instruments a copy of the source at build time (tools/instr) through go build -overlay."}
open(V+'/MANIFEST.json','w').write(json.dumps(m,indent=1)+"\n")
