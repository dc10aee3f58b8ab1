#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties that have a checker."""
import json,os
T={
 "C01":"exhaustive enumeration of operand spaces, real code vs exact dyadic model",
}
D="explicit-state enumeration of the real code against an exact reference model"
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE=json.load(open('/verif/tools/notes.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if os.path.exists(f'/verif/harness/checks/src/bin/{i.lower()}.rs'):
        checks.append(dict(property=i,quick_cmd=f'./check.sh {i} --quick',thorough_cmd=f'./check.sh {i} --thorough',
          evidence_file=f'evidence/{i}.json',technique=NOTE[i][0],level='model_checking',level_note=NOTE[i][1]))
    else:
        na.append(dict(property=i,reason='checker not built yet'))
m=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na)
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); print(len(checks),'checks',len(na),'open')
