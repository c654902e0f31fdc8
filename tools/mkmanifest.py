"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(R, 'tools', 'notes.json')))
DEFAULT_T = ('bounded explicit-state exploration of the real implementation, every '
             'transition compared with a reference model')
DEFAULT_N = ('Exhaustive within the stated bounds over the real code; trusts the float64 numpy '
             'reference model and JAX itself; says nothing about values outside the alphabet.')
checks, na = [], []
for p in props:
  i = p['id']
  if os.path.exists(os.path.join(R, 'checks', i.lower() + '.py')):
    n = NOTES.get(i, {})
    checks.append({
        'property': i,
        'quick_cmd': '/opt/venv/bin/python run.py %s quick' % i,
        'thorough_cmd': '/opt/venv/bin/python run.py %s thorough' % i,
        'technique': n.get('technique', DEFAULT_T),
        'level': 'model_checking',
        'level_note': n.get('note', DEFAULT_N)})
  else:
    na.append({'property': i, 'reason': NOTES.get(i, {}).get('na', 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks run the code in /repo directly (pure Python, nothing to build); '
              'no hooks are needed.'}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
