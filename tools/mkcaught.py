"""Merges 'id CHECK CAUGHT ...' lines of a seed-run log into caught.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'caught.json')
c = json.load(open(p)) if os.path.exists(p) else {}
for f in sys.argv[1:]:
  for l in open(f):
    w = l.split()
    if len(w) > 2 and w[2] in ('CAUGHT', 'MISSED'):
      if w[2] == 'CAUGHT' or c.get(w[0], 'missed') == 'missed':
        c[w[0]] = w[1] if w[2] == 'CAUGHT' else 'missed'
json.dump(c, open(p, 'w'), indent=1, sort_keys=True)
