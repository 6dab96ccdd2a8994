#!/usr/bin/env python3
"""Generates MANIFEST.json from the list of properties that have a check."""
import json,subprocess,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={
}
checks=json.load(open(V+'/tools/checks.json'))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
na=[]
cs=[]
for p in props:
    c=checks.get(p['id'])
    if not c or c.get('na'):
        na.append({"property":p['id'],"reason":(c or {}).get('na',"check not built yet")})
        continue
    cs.append({"property":p['id'],"quick_cmd":"./run.sh %s quick"%p['id'],"thorough_cmd":"./run.sh %s thorough"%p['id'],
      "evidence_file":"evidence/%s.json"%p['id'],"technique":c['technique'],"level":c.get('level','model_checking'),"level_note":c['note']})
m={"version":1,"setup_cmd":"./setup.sh","checks":cs,"not_applicable":na}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(cs),'checks',len(na),'not applicable')
