"""Generates /verif/MANIFEST.json from the property modules that exist (run by hand)."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, missing = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    pid = json.loads(line)['id']
    path = os.path.join(ROOT, 'props', pid.lower() + '.py')
    if not os.path.exists(path):
        missing.append({'property': pid, 'reason': 'check not built yet'})
        continue
    consts = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and \
                node.targets[0].id in ('TECHNIQUE', 'NOTE'):
            consts[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append({
        'property': pid,
        'quick_cmd': 'python3 /verif/run.py %s' % pid,
        'thorough_cmd': 'VERIF_TIER=thorough python3 /verif/run.py %s' % pid,
        'technique': consts['TECHNIQUE'],
        'level': 'exploration',
        'level_note': consts['NOTE'],
    })
doc = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': missing,
       'notes': 'No hooks in /repo. All checks import httpolice from /repo (editable install of '
                '/opt/venv), so nothing has to be built. known_findings.json lists repaired defects '
                'and known findings.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed;', 'missing:', [m['property'] for m in missing])
