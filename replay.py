"""Re-runs the unit recorded in a replay file and prints what it finds."""
import json
import sys
import os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core  # pylint: disable=wrong-import-position

if __name__ == '__main__':
  r = json.load(open(sys.argv[1]))
  print('recorded: %s / %s: %s' % (r['property'], r['unit'], r['message']))
  print(json.dumps(r['detail'], indent=1)[:6000])
  units = [u for u in core.load_units(r['property'], r['tier']) if u[0] == r['unit']]
  res = core.run_unit(units[0], r['property'], r['tier'], r['seed'])
  for v in res['violations']:
    print('replayed:', v['message'])
    print(json.dumps(v['detail'], indent=1)[:6000])
  sys.exit(1 if res['violations'] else 0)
