"""C11: trust ratio, LAMB, Fromage and the safe norm."""
import itertools

import numpy as np
import optax
from optax._src import numerics
import jax
import jax.numpy as jnp

from mc import models as m
from mc.explore import Spec, explore
from mc.std import deep, wide, long
from mc.trees import LARGE, ALL, Tree, grads, close, worst

ASSUMPTIONS = ['parameter/gradient values outside the alphabet behave like those in it',
               'double precision reference within rtol 1e-9']


def combos(ctx, cases, depth, tree='pair'):
  """Every combination of leaf norms (zero, below, at, above the minimum)."""
  t = Tree(tree)
  def leaf(shape, norm, k):
    n = int(np.prod(shape, dtype=int))
    x = np.where((np.arange(n) + k) % 2, -1., 1.) * (1 + 0.3 * np.arange(n))
    return (x * (norm / np.sqrt(np.sum(x * x)))).reshape(shape)
  norms = (0., 0.05, 2.0)
  acts = []
  for gn in itertools.product(norms, repeat=t.n):
    for pn in itertools.product((0., 0.05, 3.0), repeat=t.n):
      acts.append(('g%s,p%s' % (gn, pn), [leaf(s, a, 0) for s, a in zip(t.shapes, gn)],
                   [leaf(s, a, 1) for s, a in zip(t.shapes, pn)]))
  for label, make, model in cases:
    explore(ctx, Spec(make(), model, t, label=label), acts, depth)


def safe_norm(ctx, mode):
  """Value and gradient of the safe norm for every vector of the alphabet."""
  vals = (0., 1e-3, -0.5, 2.0)
  f = numerics.safe_norm
  vg = jax.value_and_grad(f)
  if mode == 'jit':
    vg = jax.jit(vg)
  for n in (1, 2, 3):
    for v in itertools.product(vals, repeat=n):
      for mn in (0., 1e-3, 0.5, 0.7, 2.0, 5.0):
        x = np.array(v)
        norm = np.sqrt(np.sum(x * x))
        if abs(norm - mn) < 1e-9 and norm not in (0.,):
          continue  # the two sides meet here up to rounding
        y, g = vg(jnp.asarray(x), mn)
        ey = max(norm, mn)
        eg = np.zeros(n) if norm <= mn else x / norm
        ctx.transitions += 1
        ctx.states += 1
        ctx.outcomes.add((round(float(ey), 6), tuple(np.round(eg, 4))))
        if not close([np.asarray(y), np.asarray(g)], [np.asarray(ey), eg], 1e-9, 1e-12):
          ctx.fail('safe_norm(%s, %s) = %s with gradient %s; expected %s, %s' % (
              v, mn, y, g, ey, eg))
  for shape in ((2, 2), (1, 3), (2, 1, 2)):
    x = np.arange(1., 1 + np.prod(shape)).reshape(shape)
    for mn in (0., 100.):
      if np.ndim(x) > 2:
        continue
      y = f(jnp.asarray(x), mn)
      if abs(float(y) - max(np.sqrt((x * x).sum()), mn)) > 1e-9:
        ctx.fail('safe_norm of shape %s' % (shape,))
      ctx.transitions += 1
  ctx.traces += 1
  ctx.sample('safe_norm over %s^n, n=1..3' % (vals,))


def UNITS(tier):
  T = tier == 'thorough'
  sched = lambda n: 0.1 / (1. + n)
  u = [('safe_norm-eager', safe_norm, dict(mode='eager')),
       ('safe_norm-jit', safe_norm, dict(mode='jit'))]
  trust = [('trust-%s' % mn, lambda mn=mn: optax.scale_by_trust_ratio(mn), m.TrustRatio(mn))
           for mn in (0., 1e-6, 0.2, 1.0)]
  from_ = [('fromage-%s-%s' % a, lambda a=a: optax.fromage(*a), m.fromage(*a))
           for a in ((0.1, 1e-6), (1.0, 0.2), (1e-2, 1.0))]
  lamb = [('lamb', lambda: optax.lamb(0.1), m.lamb(0.1)),
          ('lamb-wd', lambda: optax.lamb(0.1, weight_decay=0.3), m.lamb(0.1, weight_decay=0.3)),
          ('lamb-b', lambda: optax.lamb(0.1, 0.5, 0.9, 1e-2, 1e-1, 0.01),
           m.lamb(0.1, 0.5, 0.9, 1e-2, 1e-1, 0.01)),
          ('lamb-s', lambda: optax.lamb(sched, weight_decay=0.1), m.lamb(sched, weight_decay=0.1))]
  for c in trust + from_:
    u.append(('combos-' + c[0], combos, dict(cases=[c], depth=2 if T else 1)))
    u.append(('combos2-' + c[0], combos, dict(cases=[c], depth=1, tree='dict')))
  for c in lamb:
    u.append(('combos-' + c[0], combos, dict(cases=[c], depth=2, tree='vec')))
    u.append(('deep-' + c[0], deep, dict(make=c[1], model=c[2], tree='dict', letters='zab',
                                         params=('p1', 'p0'), depth=5 if T else 4, label=c[0])))
    u.append(('closed-' + c[0], deep, dict(make=c[1], model=c[2], tree='nest', letters='zhHa',
                                           depth=6 if T else 5, closed=True, label=c[0])))
  for c in trust + from_:
    u.append(('closed-' + c[0], deep, dict(make=c[1], model=c[2], tree='nest', letters='zhHaL',
                                           depth=5 if T else 4, closed=True, label=c[0])))
  for tree in ALL:
    u.append(('tree-' + tree, wide, dict(cases=trust + from_ + lamb, tree=tree, letters='zas',
                                         depth=2, mode='jit', params=('p1', 'p0', 'pL'))))
  grid = []
  for b1, b2, eps, er, wd in itertools.product((0., 0.9), (0.5, 0.999), (1e-6, 0.1), (0., 0.1), (0., 0.2)):
    a = (0.3, b1, b2, eps, er, wd)
    grid.append(('lamb%s' % (a,), lambda a=a: optax.lamb(*a), m.lamb(*a)))
  for lr_, mn in itertools.product((1e-3, 0.5, 2.0), (0., 1e-6, 0.5)):
    grid.append(('fromage%s' % ((lr_, mn),), lambda a=(lr_, mn): optax.fromage(*a), m.fromage(lr_, mn)))
  for eps, er in itertools.product((1e-30, 1e-12), (0., 1e-30, 1e-12)):
    a = (0.3, 0.9, 0.999, eps, er, 0.)
    grid.append(('lamb%s' % (a,), lambda a=a: optax.lamb(*a), m.lamb(*a)))
  u += [('grid-%d' % i, wide, dict(cases=grid[i::6], tree='dict', letters='zab', depth=2,
                                   params=('p1', 'p0'))) for i in range(6)]
  for tree in LARGE:
    u.append(('tree-' + tree, wide, dict(cases=(trust + from_ + lamb)[::2], tree=tree, letters='s', depth=2, mode='jit', params=('p1', 'pL'))))
  return u
