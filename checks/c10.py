"""C10: SM3 keeps per-axis maxima and uses their minimum."""
import itertools

import numpy as np
import optax

from mc import models as m
from mc.explore import Spec, explore
from mc.std import deep, wide, long
from mc.trees import LARGE, ALL, Tree, grads

ASSUMPTIONS = ['gradient patterns outside the alphabet behave like those in it',
               'double precision reference within rtol 1e-9']


def patterns(ctx, shape, cases, depth):
  """Every history of single-hot / row / column / dense gradients of one leaf."""
  t = Tree('leaf', [np.zeros(shape)])
  size = int(np.prod(shape, dtype=int))
  acts = [('z', [np.zeros(shape)]), ('dense', t.vals(2)), ('neg', t.vals(4, 0.6, 'neg'))]
  for i in range(size):
    x = np.zeros(shape)
    x.reshape(-1)[i] = (1.5 + i) * (-1)**i
    acts.append(('hot%d' % i, [x]))
  for ax in range(len(shape)):
    x = np.zeros(shape)
    idx = [slice(None)] * len(shape)
    idx[ax] = shape[ax] - 1
    x[tuple(idx)] = 0.9 + ax
    acts.append(('slice%d' % ax, [x]))
  for label, make, model in cases:
    explore(ctx, Spec(make(), model, t, label=label), acts, depth)


def UNITS(tier):
  T = tier == 'thorough'
  u = []
  cases = [('by_sm3', lambda: optax.scale_by_sm3(), m.SM3()),
           ('by_sm3-b', lambda: optax.scale_by_sm3(0.5, 0.7, 1e-2), m.SM3(0.5, 0.7, 1e-2)),
           ('sm3', lambda: optax.sm3(0.3), m.sm3(0.3)),
           ('sm3-none', lambda: optax.sm3(0.3, None), m.sm3(0.3, None)),
           ('sm3-0', lambda: optax.sm3(0.3, 0.5), m.sm3(0.3, 0.5))]
  for shape in ((), (1,), (3,), (2, 2), (2, 3), (3, 1), (1, 1), (2, 1, 2), (2, 2, 2), (2, 1, 1, 2)):
    for c in cases:
      n = int(np.prod(shape, dtype=int))
      u.append(('pat-%s-%s' % ('x'.join(map(str, shape)), c[0]), patterns,
                dict(shape=shape, cases=[c], depth=(5 if n < 4 else 4 if n == 4 and len(shape) < 4 else 3) + T)))
  grid = []
  for b1, b2, eps in itertools.product((0., 0.9), (1.0, 0.999, 0.5, 0.), (1e-8, 1e-2, 0.5)):
    a = (b1, b2, eps)
    grid.append(('sm3%s' % (a,), lambda a=a: optax.scale_by_sm3(*a), m.SM3(*a)))
  tiny = []
  for b1, eps in itertools.product((0., 0.9), (1e-30, 1e-16, 1e-12)):
    a = (b1, 1.0, eps)
    tiny.append(('sm3%s' % (a,), lambda a=a: optax.scale_by_sm3(*a), m.SM3(*a)))
  u.append(('tiny', wide, dict(cases=tiny, tree='dict', letters='zats', depth=4 if T else 3, mode='eager')))
  for tree in ALL:
    u.append(('grid-' + tree, wide, dict(cases=grid if tree in ('dict', 'ranks', 'nest') else grid[::5],
                                         tree=tree, letters='zab',
                                         depth=4 if T else 2, mode='eager')))
    u.append(('tree-' + tree, wide, dict(cases=cases, tree=tree, letters='zabh', depth=4 if T else 3,
                                         mode='jit')))
  for c in cases:
    u.append(('long-' + c[0], long, dict(make=c[1], model=c[2], tree='dict', label=c[0],
                                         steps=5000 if T else 600)))
  for tree in LARGE:
    u.append(('tree-' + tree, wide, dict(cases=cases, tree=tree, letters='ab', depth=2, mode='jit')))
  return u
