#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / 'tools'))
from props import PROPS, NOT_CLAIMED  # noqa: E402

TECH = ('bounded symbolic execution of the real Python code (z3): all paths '
        'forked by solver, negated property discharged per path, '
        'counterexamples replayed')
NOTE = ('Holds for every value of the symbolic inputs within the bounds listed '
        'per harness in the evidence (sizes are small and fixed; values range '
        'over reals). Trusts z3, the Sym/numpy/pandas object-dtype shim, and '
        'the stubs named in the evidence assumptions; float rounding is '
        'outside the claim.')
lines, checks, na = [], [], []
for p in PROPS + NOT_CLAIMED:
    d = {
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['quant']},
        'why_tests_cant': p['why'],
        'anchors': {
            'files': p['files'],
            'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
            'observe_at': p.get('observe', []), 'hook_needed': None,
        },
    }
    lines.append(json.dumps(d))
    if p in NOT_CLAIMED:
        na.append({'property': p['id'], 'reason': p['reason']})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': f'./check.sh {p["id"]} quick',
        'thorough_cmd': f'./check.sh {p["id"]} thorough',
        'technique': TECH, 'level': 'model_checking',
        'level_note': (p.get('note', '') + ' ' + NOTE).strip(),
    })
(V / 'properties.jsonl').write_text('\n'.join(lines) + '\n')
(V / 'MANIFEST.json').write_text(json.dumps({
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'See DESIGN.md. Engine in engine/, one module per property in '
             'checks/, known and fixed defects in known_findings.json.',
}, indent=1) + '\n')
# ---------------------------------------------------------------- DESIGN.md
from how import HOW  # noqa: E402

out = []
for p in PROPS:
    what, oracle = HOW[p['id']]
    out.append(f'**{p["id"]}  {p["title"]}.** {what} *Oracle:* {oracle} '
               f'*Bounds:* {p["quant"]}. *Beyond tests:* {p["why"]}\n')
kf = json.loads((V / 'known_findings.json').read_text())
fixed = [f'* {x.removeprefix("fixed: property=")}' for x in kf['fixed']]
caught = json.loads((V / 'tools' / 'caught.json').read_text())
rows = ['| planted bug | property | needs | result |', '|---|---|---|---|']
for f in sorted((V / 'seeded').glob('*/meta.json')):
    m = json.loads(f.read_text())
    rows.append(f'| {f.parent.name} | {m["property"]} | {m["needs"]} | '
                f'{caught.get(f.parent.name, "?")} |')
t = (V / 'tools' / 'design.md').read_text()
nots = [f'* **{p["id"]}** {p["title"]}: {p["reason"]}' for p in NOT_CLAIMED]
for k, v in (('PROPS', '\n'.join(out)), ('FIXED', '\n'.join(fixed)),
             ('SEEDED', '\n'.join(rows)), ('NOTCLAIMED', '\n'.join(nots))):
    t = t.replace(f'@{k}@', v)
(V / 'DESIGN.md').write_text(t)
print(len(checks), 'checks', len(na), 'not applicable')
