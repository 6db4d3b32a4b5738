#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property with contracts."""
import json, os, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTES = {}
try: from notes import NOTES
except ImportError: pass
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/contracts/%s.py' % (V, i.lower())):
        checks.append(dict(property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + i,
            technique='contract-based deductive verification: pyvc generates the obligations from the current source, z3 discharges them' + ('; bounded run-time check beside it'),
            level='proof', level_note=NOTES.get(i, 'All obligations of the contracts are discharged for all inputs. Trusted: pyvc and z3, the specification in contracts/, and the assumptions listed in the evidence.')))
    else: na.append(dict(property=i, reason='No contracts yet.'))
m = dict(version=1, setup_cmd='python3-vt tools/selftest.py', checks=checks, not_applicable=na,
         notes='One command per property; it reads the current source of /repo, needs no build and no hooks. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'claimed')
