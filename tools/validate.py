#!/usr/bin/env python3-vt
"""validates properties.jsonl, MANIFEST.json and evidence files against the schemas"""
import json, jsonschema, glob
ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
n = 0
for l in open('/verif/properties.jsonl'):
    jsonschema.validate(json.loads(l), ps) if ps.get('type') != 'array' else None
    n += 1
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
es = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'):
    jsonschema.validate(json.load(open(f)), es)
print('ok', n, 'properties')
