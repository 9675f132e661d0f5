#!/usr/bin/env python3-vt
import json, jsonschema, glob
V='/verif/'
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(V+'properties.jsonl'): jsonschema.validate(json.loads(l),sc)
jsonschema.validate(json.load(open(V+'MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
ev=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob(V+'evidence/*.json'): jsonschema.validate(json.load(open(f)),ev)
print('valid')
