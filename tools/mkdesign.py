"""Writes DESIGN.md: tools/design_head.md, one paragraph per property, tail, seeded table."""
import glob, json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = os.path.join(R, 'tools')
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
how = json.load(open(os.path.join(T, 'notes.json')))
out = [open(os.path.join(T, 'design_head.md')).read()]
for p in props:
  n = how[p['id']]
  out.append('### %s %s\n\n*Explored.* %s\n\n*Oracle.* %s\n\n*Bounds.* %s\n\n*Beyond tests.* %s\n\n' % (
      p['id'], p['title'], n['how'], n['oracle'], n['bounds'], p['why_tests_cant']))
out.append(open(os.path.join(T, 'design_tail.md')).read())
rows = []
caught = json.load(open(os.path.join(T, 'caught.json')))
for d in sorted(glob.glob(os.path.join(R, 'seeded', '*', 'meta.json'))):
  i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
  rows.append('| %s | %s | %s | %s | %s |' % (
      i, m['property'], m['what_it_breaks'].strip(), m['needs'].strip(), caught.get(i, '?')))
out.append('\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n' + '\n'.join(rows) + '\n')
open(os.path.join(R, 'DESIGN.md'), 'w').write(''.join(out))
