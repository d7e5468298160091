"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib.util
import json
from pathlib import Path

here = Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (here / 'properties.jsonl').read_text().splitlines()]
NOTES = json.loads((here / 'tools' / 'notes.json').read_text())
checks, na = [], []
for p in props:
    i = p['id']
    if (here / 'checks' / f'{i.lower()}.py').exists():
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd=f'python3 run.py {i} --tier quick', thorough_cmd=f'python3 run.py {i} --tier thorough',
                           technique=n.get('technique', 'runtime monitoring: seeded workloads on the real code judged by an independent oracle'),
                           level=n.get('level', 'exploration'),
                           level_note=n.get('note', 'Holds on every execution observed (counts in the evidence file); trusts numpy/scipy as reference arithmetic and the '
                                                    'tolerances stated there.')))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get('na', 'No check has been built for it yet.')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo are needed: all monitors observe the public API (block streams, properties, files, threads) from outside.')
(here / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks', len(na), 'not claimed')
