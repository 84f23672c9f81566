#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and tools/claims.json."""
import json,os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
claims=json.load(open(R+'/tools/claims.json')) if os.path.exists(R+'/tools/claims.json') else {}
checks=[];na=[]
for p in props:
    c=claims.get(p['id'])
    if not c or 'na' in c:
        na.append({"property":p['id'],"reason":(c or {}).get('na',"check not built yet")}); continue
    checks.append({"property":p['id'],
      "quick_cmd":"bash checks/run.sh %s quick"%p['id'],
      "thorough_cmd":"bash checks/run.sh %s thorough"%p['id'],
      "evidence_file":"evidence/%s.json"%p['id'],
      "technique":c.get('technique',"symbolic execution of the Go SSA of /repo with an SMT solver (z3) deciding every branch and assertion over all inputs within the bounds"),
      "level":"model_checking","level_note":c['note']})
m={"version":1,"setup_cmd":"bash checks/setup.sh","checks":checks,"not_applicable":na,
 "notes":"See DESIGN.md. No hooks are needed in /repo: the checks drive the public API and encode /repo's current source on every run."}
json.dump(m,open(R+'/MANIFEST.json','w'),indent=1,ensure_ascii=False); open(R+'/MANIFEST.json','a').write("\n")
print(len(checks),"claimed",len(na),"not claimed")
