"""Runner shared by all checks: units of exhaustive exploration, evidence, replay.

A check module (checks/cXX.py) defines

  UNITS = lambda tier: [(name, function, kwargs), ...]

Every unit explores one finite space completely and reports through a `Ctx`.
Units run in worker processes; every process imports optax afresh from /repo.
"""
import collections
import concurrent.futures as cf
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OPTAX_REPO', '/repo')
DEADLINE = float(os.environ.get('MC_DEADLINE', '820'))


class Stop(Exception):
  """A violation was recorded; ends the unit."""


def _jsonable(x, depth=0):
  import numpy as np
  if isinstance(x, (str, int, float, bool, type(None))):
    return x if not isinstance(x, float) or x == x and abs(x) != float('inf') else repr(x)
  if isinstance(x, dict):
    return {str(k): _jsonable(v, depth + 1) for k, v in list(x.items())[:40]}
  if isinstance(x, (list, tuple)):
    return [_jsonable(v, depth + 1) for v in list(x)[:60]]
  if hasattr(x, 'shape') and hasattr(x, 'dtype'):
    a = np.asarray(x)
    return {'dtype': str(a.dtype), 'shape': list(a.shape),
            'values': [repr(v) for v in a.reshape(-1)[:40].tolist()]}
  return repr(x)[:400]


class Ctx:
  """Counts what a unit covered and records violations and known findings."""

  def __init__(self, prop, unit, tier, seed):
    self.prop, self.unit, self.tier, self.seed = prop, unit, tier, seed
    self.states = 0
    self.transitions = 0
    self.traces = 0
    self.samples = []
    self.violations = []
    self.known_hits = {}
    self.extra = collections.Counter()
    self.outcomes = set()

  def sample(self, s, limit=1):
    if len(self.samples) < limit:
      self.samples.append(_jsonable(s))

  def fail(self, msg, **detail):
    self.violations.append({'message': msg, 'detail': _jsonable(detail)})
    raise Stop(msg)

  def known(self, fid, what, **detail):
    """A deviation that matches a listed finding exactly; else a violation."""
    if fid in known_findings(self.prop):
      self.known_hits.setdefault(fid, what)
    else:
      self.fail('unlisted: ' + what, **detail)

  def result(self):
    return {
        'unit': self.unit, 'states': self.states,
        'transitions': self.transitions, 'traces': self.traces,
        'samples': self.samples, 'violations': self.violations,
        'known': self.known_hits, 'extra': dict(self.extra),
        'outcomes': len(self.outcomes)}


def known_findings(prop):
  """Ids of the findings listed for `prop`: `known: property=C07 id=x text`."""
  out = {}
  path = os.path.join(ROOT, 'known_findings.txt')
  if os.path.exists(path):
    for line in open(path):
      w = line.split(None, 3)
      if len(w) == 4 and w[0] == 'known:' and w[1] == 'property=' + prop:
        out[w[2].split('=', 1)[1]] = w[3].strip()
  return out


def setup_paths():
  sys.dont_write_bytecode = True
  for p in ('/opt/optax-compat', REPO):
    if p in sys.path:
      sys.path.remove(p)
    sys.path.insert(0, p)
  if ROOT not in sys.path:
    sys.path.append(ROOT)


def env_setup():
  os.environ.setdefault('JAX_PLATFORMS', 'cpu')
  os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
  os.environ['TF_CPP_MIN_LOG_LEVEL'] = '3'
  os.environ['OMP_NUM_THREADS'] = '1'
  os.environ['XLA_FLAGS'] = (
      '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1')
  os.environ['PYTHONHASHSEED'] = os.environ.get('PYTHONHASHSEED', '0')
  os.environ['PYTHONWARNINGS'] = 'ignore'


def load_units(prop, tier):
  env_setup()
  setup_paths()
  import warnings
  warnings.simplefilter('ignore')
  import logging
  logging.disable(logging.WARNING)
  import jax_removed_names  # pylint: disable=unused-import
  import jax
  import optax
  assert os.path.abspath(optax.__file__).startswith(os.path.abspath(REPO)), (
      optax.__file__)
  from absl import logging as alog
  alog.set_verbosity(alog.ERROR)
  mod = importlib.import_module('checks.' + prop.lower())
  units = mod.UNITS(tier)
  names = [u[0] for u in units]
  assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
  return units


_W = {}


def _init_worker(prop, tier, seed):
  _W['prop'], _W['tier'], _W['seed'] = prop, tier, seed
  try:
    _W['units'] = load_units(prop, tier)
    _W['error'] = None
  except Exception:  # pylint: disable=broad-except
    _W['units'] = []
    _W['error'] = traceback.format_exc()


def _count_units():
  return len(_W['units']), _W['error'], [u[0] for u in _W['units']]


def run_unit(unit, prop, tier, seed):
  """Runs one unit; anything the code raises unexpectedly is a violation."""
  import jax
  name, fn, kw = unit
  kw = dict(kw)
  x64 = kw.pop('x64', True)
  ctx = Ctx(prop, name, tier, seed)
  jax.config.update('jax_enable_x64', bool(x64))
  t0 = time.time()
  try:
    fn(ctx, **kw)
  except Stop:
    pass
  except MemoryError:
    raise
  except Exception as e:  # pylint: disable=broad-except
    ctx.violations.append({
        'message': 'unexpected %s: %s' % (type(e).__name__, str(e)[:300]),
        'detail': {'traceback': traceback.format_exc()[-3000:]}})
  r = ctx.result()
  r['wall'] = time.time() - t0
  return r


def _run_index(i):
  return run_unit(_W['units'][i], _W['prop'], _W['tier'], _W['seed'])


def main(prop, tier, seed, only=None, verbose=False, workers=None):
  """Runs a check; returns the process exit code."""
  t0 = time.time()
  env_setup()
  workers = workers or int(os.environ.get('MC_WORKERS', '8'))
  results, violations = [], []
  ctxm = multiprocessing.get_context('spawn')
  ex = cf.ProcessPoolExecutor(
      workers, mp_context=ctxm, initializer=_init_worker,
      initargs=(prop, tier, seed))
  timed_out = []
  try:
    n, err, names = ex.submit(_count_units).result()
    if err:
      # The code under test cannot even be imported or set up.
      results.append({'unit': 'setup', 'states': 0, 'transitions': 0,
                      'traces': 0, 'samples': [], 'known': {}, 'extra': {},
                      'outcomes': 0, 'wall': 0., 'violations': [
                          {'message': 'setup failed', 'detail': {'traceback': err[-3000:]}}]})
    else:
      idx = [i for i in range(n) if only is None or only in names[i]]
      futs = {ex.submit(_run_index, i): i for i in idx}
      pending = set(futs)
      stop = False
      while pending and not stop:
        left = DEADLINE * (1 if tier == 'quick' else 100) - (time.time() - t0)
        done, pending = cf.wait(pending, timeout=max(left, 0.01),
                                return_when=cf.FIRST_COMPLETED)
        if not done:
          timed_out = sorted(names[futs[f]] for f in pending)
          break
        for f in done:
          r = f.result()
          results.append(r)
          if verbose:
            print('%-60s %7.2fs states=%d trans=%d traces=%d out=%d%s' % (
                r['unit'], r['wall'], r['states'], r['transitions'],
                r['traces'], r['outcomes'], ' VIOLATED' if r['violations'] else ''))
            sys.stdout.flush()
          if r['violations']:
            stop = True
      for f in pending:
        f.cancel()
  finally:
    procs = list((getattr(ex, '_processes', None) or {}).values())
    ex.shutdown(wait=False, cancel_futures=True)
    for p in procs:
      p.kill()
    for p in procs:
      p.join(5)

  if timed_out:
    print('TIMEOUT in units: %s' % timed_out[:10])
  known = {}
  total = collections.Counter()
  extra = collections.Counter()
  samples = []
  for r in sorted(results, key=lambda r: r['unit']):
    for k in ('states', 'transitions', 'traces'):
      total[k] += r[k]
    extra.update(r['extra'])
    known.update(r['known'])
    for s in r['samples']:
      if len(samples) < 12:
        samples.append({'unit': r['unit'], 'case': s})
    for v in r['violations']:
      violations.append((r['unit'], v))
  wall = time.time() - t0
  os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
  evidence = {
      'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
      'coverage': {
          'states': total['states'], 'transitions': total['transitions'],
          'traces_validated_against_impl': total['traces'],
          'units': len(results), 'samples': samples,
          'exhaustive': not (violations or timed_out or only),
          'distinct_outcomes': sum(r['outcomes'] for r in results),
          **{k: v for k, v in sorted(extra.items())},
          'known_findings_hit': sorted(known),
      },
      'assumptions': getattr(importlib_doc(prop), 'ASSUMPTIONS', []),
      'wall_s': round(wall, 2), 'violations': len(violations)}
  if only is None:
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
      json.dump(evidence, f, indent=1)
  texts = known_findings(prop)
  for k in sorted(known):
    print('KNOWN-FINDING: property=%s %s' % (prop, texts.get(k, known[k])))
  for i, (unit, v) in enumerate(violations[:5]):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (prop, i))
    with open(path, 'w') as f:
      json.dump({'property': prop, 'tier': tier, 'seed': seed, 'unit': unit,
                 'message': v['message'], 'detail': v['detail']}, f, indent=1)
    print('  %s: %s' % (unit, v['message']))
    print('VIOLATION property=%s replay=%s' % (prop, path))
  print('%s %s: units=%d states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs' % (
      prop, tier, len(results), total['states'], total['transitions'],
      total['traces'], sum(r['outcomes'] for r in results), wall))
  if violations:
    return 1
  return 2 if timed_out else 0


class _Doc:
  ASSUMPTIONS = []


def importlib_doc(prop):
  """Reads ASSUMPTIONS of the check module without importing jax."""
  import ast
  d = _Doc()
  path = os.path.join(ROOT, 'checks', prop.lower() + '.py')
  for node in ast.parse(open(path).read()).body:
    if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') == 'ASSUMPTIONS':
      d.ASSUMPTIONS = ast.literal_eval(node.value)
  return d
