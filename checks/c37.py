"""C37: nested wrappers behave as the composition of their laws."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc import custom
from mc import models as m
from mc.explore import Spec, explore, lasso
from mc.trees import Tree, grads
from mc.wrap import BY, sched
from checks.c21 import pair

ASSUMPTIONS = ['nestings deeper than enumerated behave like their parts',
               'gradient values outside the alphabet behave like those in it']


def small(x):
  return np.ndim(x) < 2


# name -> (wrap a real transformation, wrap a model)
WRAPPERS = {
    'finite0': (lambda tx: optax.apply_if_finite(tx, 0), lambda mm: m.IfFinite(mm, 0)),
    'finite1': (lambda tx: optax.apply_if_finite(tx, 1), lambda mm: m.IfFinite(mm, 1)),
    'multi2': (lambda tx: optax.MultiSteps(tx, 2).gradient_transformation(), lambda mm: m.MultiSteps(mm, 2)),
    'multis': (lambda tx: optax.MultiSteps(tx, lambda n: 1 + (n + 1) % 2, use_grad_mean=False).gradient_transformation(),
               lambda mm: m.MultiSteps(mm, lambda n: 1 + (n + 1) % 2, False)),
    'masked': (lambda tx: optax.masked(tx, lambda p: jax.tree_util.tree_map(small, p)),
               lambda mm: m.Masked(mm, small)),
    'flatten': (optax.flatten, m.Flatten),
    'maybe': (lambda tx: optax.maybe_update(tx, lambda n: n % 2 == 0), lambda mm: m.Maybe(mm, lambda n: n % 2 == 0)),
    'inject': (lambda tx: optax.inject_hyperparams(lambda k: optax.chain(optax.scale(k), tx))(k=lambda n: 1. / (1. + n)),
               lambda mm: m.Inject(lambda k: m.Chain(m.Scale(k), mm), {}, {'k': lambda n: 1. / (1. + n)})),
    'chain': (lambda tx: optax.chain(optax.trace(0.5, False), tx, optax.scale_by_schedule(sched)),
              lambda mm: m.Chain(m.Trace(0.5), mm, m.BySchedule(sched))),
}


def system(inner, names, tree, mode, look=None, **kw):
  """names[0] is the outermost wrapper."""
  _, make, model = BY[inner]
  tx = make()
  t = Tree(tree)
  for n in reversed(names):
    r, a = WRAPPERS[n]
    tx, model = r(tx), a(model)
  label = '('.join(tuple(names) + (inner,))
  if look:
    tx = optax.lookahead(tx, *look)
    model = m.Lookahead(model, *look)
    f = t.vals(9, 0.8)
    return Spec(tx, model, t, params=f + [x.copy() for x in f], mode=mode, pass_params=True,
                build_params=pair(t), label='lookahead%s(%s' % (look, label), **kw)
  return Spec(tx, model, t, mode=mode, label=label, **kw)


def nests(ctx, cases, letters, depth, tree='dict', mode='jit', closed=True, **kw):
  for inner, names, look in cases:
    sp = system(inner, names, tree, mode, look, **kw)
    explore(ctx, sp, grads(sp.tree, letters), depth, closed=closed)


class Written(m.M):
  """The law of custom.make."""

  def __init__(self, kind):
    self.kind = kind

  def init(self, p):
    return {'n': 0}

  def update(self, g, s, p=None):
    f = custom.factor(self.kind, s['n'])
    return m.ew(lambda x: f * x, g), {'n': s['n'] + 1}


def written(ctx, kind, wrappers, depth, modes=('eager', 'jit')):
  """Wrappers around a transformation written by a user, whose state is any pytree."""
  t = Tree('dict')
  f = t.vals(9, 0.8)
  for names in wrappers:
    for look in (None, (2, 0.5, False), (2, 0.5, True)):
      tx, model = custom.make(kind), Written(kind)
      for n in reversed(names):
        r, a = WRAPPERS[n]
        tx, model = r(tx), a(model)
      label = '%s around a user-written transformation with state %s' % (names, kind)
      kw = {}
      if look:
        tx, model = optax.lookahead(tx, *look), m.Lookahead(model, *look)
        kw = dict(params=f + [x.copy() for x in f], pass_params=True, build_params=pair(t))
        label = 'lookahead%s of %s' % (look, label)
      for mode in modes:
        explore(ctx, Spec(tx, model, t, mode=mode, label=label, **kw), grads(t, 'abN' if mode == 'jit' else 'aN'), depth)


def UNITS(tier):
  T = tier == 'thorough'
  u = []
  W = list(WRAPPERS)
  for kind in list(custom.STATES):
    u.append(('written-' + kind, written, dict(kind=kind, wrappers=[()] + [(w,) for w in W], depth=4 if T else 3)))
  pairs = [(a, b) for a in W for b in W]
  triples = [(a, b, c) for a in W for b in W for c in W]
  cases = []
  for i, (a, b) in enumerate(pairs):
    for inner in ('mom', 'adamw') + (('adam', 'rms', 'lamb', 'every') if T else ()):
      cases.append((inner, (a, b), None))
  n = 24
  for i in range(n):
    u.append(('pairs-%d' % i, nests, dict(cases=cases[i::n], letters='abN', depth=5 if T else 4)))
  for i in range(8):
    u.append(('pairs-nest-%d' % i, nests, dict(cases=cases[i::8][::1 if T else 2], letters='az', depth=7 if T else 5,
                                               tree='nest')))
  tc = [('mom', t, None) for t in triples]
  if not T:
    # every triple of wrapper kinds with no repetition of the same wrapper
    tc = [c for c in tc if len(set(c[1])) == 3]
  n = 32
  for i in range(n):
    u.append(('triples-%d' % i, nests, dict(cases=tc[i::n], letters='abN' if T else 'aN', depth=5 if T else 4, tree='pair')))
  lc = [('mom', (a,), look) for a in W for look in ((2, 0.5, False), (2, 0.3, True))]
  lc += [('adamw', (a, b), (2, 0.5, True)) for a, b in (pairs if T else pairs[::4])]
  for i in range(8):
    u.append(('look-%d' % i, nests, dict(cases=lc[i::8], letters='abN', depth=5 if T else 4)))
  ec = [('mom', p, None) for p in (pairs if T else pairs[::9])]
  for i in range(8):
    if ec[i::8]:
      u.append(('eager-%d' % i, nests, dict(cases=ec[i::8], letters='aN', depth=3, mode='eager')))
  xc = [('mom', p, None) for p in pairs[::3]]
  for i in range(4):
    u.append(('x32-%d' % i, nests, dict(cases=xc[i::4], letters='ab', depth=4, rtol=1e-4, atol=1e-5, x64=False)))
  if T:
    quads = [('mom', q, None) for q in itertools.permutations(W, 4)]
    for i in range(200):
      u.append(('quads-%d' % i, nests, dict(cases=quads[i::200], letters='aN', depth=5, tree='pair')))
  return u
