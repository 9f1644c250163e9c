#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present and listed here."""
import ast, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {
    'P31': 'quantitative floating-point error bounds over all inputs; no static analysis in reach bounds the '
           'rounding of degree-parametric algorithms',
}
NOTYET = 'no check that decides it is registered yet'
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(H, 'checks', i.lower() + '.py')
    if i in NA or not os.path.exists(f):
        na.append({'property': i, 'reason': NA.get(i, NOTYET)})
        continue
    c = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('TECHNIQUE', 'NOTE', 'READY'):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    if c.get('READY') is False:
        na.append({'property': i, 'reason': NOTYET})
        continue
    checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': 'static analysis: ' + c['TECHNIQUE'],
                   'level': 'other', 'level_note': c['NOTE']})
json.dump({'version': 1, 'setup_cmd': './check setup', 'checks': checks, 'not_applicable': na,
           'notes': 'Each check prints what it analysed and writes evidence/<id>.json; see DESIGN.md.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
