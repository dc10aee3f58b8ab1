#!/usr/bin/env python3
"""Validate properties.jsonl, MANIFEST.json and evidence files (run with python3-vt)."""
import json,glob,jsonschema,re,sys
S=lambda n: json.load(open('/root/.vp/%s.schema.json'%n))
ids=[]
for l in open('/verif/properties.jsonl'):
    o=json.loads(l); jsonschema.validate(o,S('PROPERTIES')); ids.append(o['id'])
    n=len(re.findall(r'\.(?:\s|$)',o['statement']))
    if n>3: print('too many sentences',o['id'],n)
assert len(set(ids))==len(ids)
try:
    m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,S('MANIFEST'))
    c={x['property'] for x in m['checks']}|{x['property'] for x in m.get('not_applicable',[])}
    print('manifest ok; unlisted:',sorted(set(ids)-c),'unknown:',sorted(c-set(ids)))
except FileNotFoundError: print('no manifest')
for f in glob.glob('/verif/evidence/*.json'):
    jsonschema.validate(json.load(open(f)),S('EVIDENCE'))
print('ok',len(ids))
