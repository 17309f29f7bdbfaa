#!/usr/bin/env python3
"""Regenerates MANIFEST.json. Each claimed property is one entry of CLAIMED."""
import json,os
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(os.path.join(R,'properties.jsonl'))]
exec(open(os.path.join(R,'tools','claims.py')).read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        t,l=CLAIMED[i]
        checks.append(dict(property=i,quick_cmd='./run.sh %s'%i,thorough_cmd='./run.sh %s'%i,technique=t,level='other',level_note=l))
    else:
        na.append(dict(property=i,reason=NA.get(i,'not built yet')))
json.dump(dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na),open(os.path.join(R,'MANIFEST.json'),'w'),indent=1)
