import json, glob, os, sys
import jsonschema
V='/verif/'
S='/root/.vp/'
jsonschema.validate(json.load(open(V+'MANIFEST.json')), json.load(open(S+'MANIFEST.schema.json')))
ps=json.load(open(S+'PROPERTIES.schema.json'))
for l in open(V+'properties.jsonl'): jsonschema.validate(json.loads(l), ps)
es=json.load(open(S+'EVIDENCE.schema.json'))
for f in glob.glob(V+'evidence/*.json'): jsonschema.validate(json.load(open(f)), es)
print('valid')
