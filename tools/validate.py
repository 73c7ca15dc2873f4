#!/opt/veriftools/pyvenv/bin/python
import json
V='/verif/'
S='/root/.vp/'
import jsonschema
for l in open(V+'properties.jsonl'): jsonschema.validate(json.loads(l), json.load(open(S+'PROPERTIES.schema.json')))
jsonschema.validate(json.load(open(V+'MANIFEST.json')), json.load(open(S+'MANIFEST.schema.json')))
print('ok')
