#!/usr/bin/env python3
"""python3-vt tools/validate.py: validates the metadata against the schemas."""
import glob
import json
import os
import jsonschema
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
load = lambda p: json.load(open(p))  # noqa: E731
m = load(V + '/MANIFEST.json')
jsonschema.validate(m, load('/root/.vp/MANIFEST.schema.json'))
s = load('/root/.vp/PROPERTIES.schema.json')
for line in open(V + '/properties.jsonl'):
    jsonschema.validate(json.loads(line), s)
s = load('/root/.vp/EVIDENCE.schema.json')
for p in glob.glob(V + '/evidence/???.json'):
    jsonschema.validate(load(p), s)
print('valid;', len(m['checks']), 'checks')
