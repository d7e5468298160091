"""Maintain known_findings.json:  find.py open PROP MECH TEXT | find.py fixed PROP COMMIT TEXT"""
import json
import sys
from pathlib import Path

p = Path(__file__).resolve().parent.parent / 'known_findings.json'
d = json.loads(p.read_text())
kind, prop, key, text = sys.argv[1:5]
if kind == 'open':
    d['findings'] = [f for f in d['findings'] if (f['property'], f['mechanism']) != (prop, key)]
    d['findings'].append(dict(property=prop, mechanism=key, status='open', what=text))
else:
    line = f'fixed: property={prop} {key} {text}'
    if line not in d['fixed']:
        d['fixed'].append(line)
p.write_text('{\n "findings": [\n  ' + ',\n  '.join(json.dumps(f) for f in d['findings']) + '\n ],\n "fixed": [\n  ' + ',\n  '.join(json.dumps(f) for f in d['fixed']) + '\n ]\n}\n')
