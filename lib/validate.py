"""python3-vt lib/validate.py : validate properties.jsonl, MANIFEST.json and the evidence files against the schemas."""
import json, glob, jsonschema
P = json.load(open('/root/.vp/PROPERTIES.schema.json')); M = json.load(open('/root/.vp/MANIFEST.schema.json')); E = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for l in open('/verif/properties.jsonl'):
    jsonschema.validate(json.loads(l), P)
    d = json.loads(l)
    n = d['statement'].count('. ') + 1
    if n > 3: print(d['id'], n, 'sentences')
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), M)
for f in glob.glob('/verif/evidence/*.json'):
    jsonschema.validate(json.load(open(f)), E)
print('valid')
