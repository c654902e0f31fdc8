"""Runs one check: run.py C05 [quick|thorough] [--only SUBSTRING] [-v]."""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core  # pylint: disable=wrong-import-position

if __name__ == '__main__':
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--only')
  ap.add_argument('--workers', type=int)
  ap.add_argument('-v', action='store_true')
  a = ap.parse_args()
  sys.exit(core.main(a.prop, a.tier, int(os.environ.get('VERIF_SEED', '0')),
                     only=a.only, verbose=a.v, workers=a.workers))
