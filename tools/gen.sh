#!/bin/bash
# Regenerates properties.jsonl and MANIFEST.json from tools/props_data.py and validates them.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 python3 -c 'import props; props.main()' || exit 1
cd .. && PYTHONDONTWRITEBYTECODE=1 python3-vt - <<'PY'
import json, jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids = []
for l in open('properties.jsonl'):
  d = json.loads(l); jsonschema.validate(d, s); ids.append(d['id'])
m = json.load(open('MANIFEST.json')); jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
c = [x['property'] for x in m['checks']] + [x['property'] for x in m['not_applicable']]
assert sorted(c) == sorted(ids) and len(set(ids)) == len(ids), (c, ids)
print(len(ids), 'properties,', len(m['checks']), 'claimed')
PY
