#!/bin/sh
# Validates properties.jsonl, MANIFEST.json and evidence files against the schemas.
exec python3-vt - <<'P'
import json,jsonschema,glob
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,s); ids.append(p['id'])
m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),e)
cl={c['property'] for c in m['checks']}; na={c['property'] for c in m.get('not_applicable',[])}
assert cl|na==set(ids) and not cl&na,(cl,na,ids)
print('ok',len(cl),'claimed',len(na),'n/a')
P
