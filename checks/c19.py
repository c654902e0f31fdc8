"""C19: flatten equals running the transformation on one long vector."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc import models as m
from mc.explore import Spec, explore
from mc.std import actions_for
from mc.trees import LARGE, ALL, Tree, grads
from mc.wrap import inners, same, BY

ASSUMPTIONS = ['inner transformations and trees outside the lists behave like those in them']

MORE = {
    'decay': (lambda: optax.add_decayed_weights(0.3), m.Decay(0.3)),
    'clipnorm': (lambda: optax.clip_by_global_norm(1.0), m.ClipNorm(1.0)),
    'clip1': (lambda: optax.clip(0.5), m.Clip(0.5)),
    'center': (lambda: optax.centralize(), m.Centralize()),
    'agc': (lambda: optax.adaptive_grad_clip(0.1), m.Agc(0.1)),
    'trust': (lambda: optax.scale_by_trust_ratio(0.1), m.TrustRatio(0.1)),
    'zeronan': (lambda: optax.zero_nans(), m.ZeroNans()),
    'nonneg': (lambda: optax.keep_params_nonnegative(), m.NonNeg()),
    'adagrad': (lambda: optax.adagrad(0.1), m.adagrad(0.1)),
}
# What these do depends on the leaves they see.
PER_LEAF = ('lamb', 'fromage', 'sm3', 'center', 'agc', 'trust')


def check(ctx, label, tree, letters, depth, mode='jit', against='model', params=('p1', 'p2'),
          closed=False, **kw):
  t = Tree(tree)
  make, model = MORE[label] if label in MORE else BY[label][1:]
  models = []
  if against == 'real':
    r = m.Real(make(), model.needs_params)
    models.append(('one vector', m.Flatten(r), lambda s, mm: None if same(s, mm['inner']) else
                   'the state is not that of the single vector'))
  else:
    models.append(('one vector', m.Flatten(model), None))
    if label not in PER_LEAF:
      models.append(('unwrapped', model, None))
  for name, mod, view in models:
    sp = Spec(optax.flatten(make()), mod, t, mode=mode, view=view, label='flatten(%s) vs %s' % (label, name), **kw)
    explore(ctx, sp, actions_for(model, t, letters, params), depth, closed=closed)


SHAPES = ((), (2,), (3,), (2, 2), (1, 4), (4, 1), (0,), (6,))


def reuse(ctx, label, n, mode):
  """One object, every tree of n leaves over the shapes (same structure), every pair of consecutive trees."""
  make = (MORE[label] if label in MORE else BY[label][1:])[0]
  tx = optax.flatten(make())
  step = jax.jit(tx.update) if mode == 'jit' else tx.update
  flat = make()
  trees = [tuple(SHAPES[i] for i in ix) for ix in itertools.product(range(len(SHAPES)), repeat=n)]
  # neighbours in this order differ in one leaf, in both directions
  for shapes in trees + trees[::-1]:
    t = Tree('shapes', [np.zeros(s) for s in shapes])
    p = t.build(t.vals(3))
    one = lambda ls: jnp.concatenate([jnp.reshape(jnp.asarray(l), -1) for l in ls])
    s, f = tx.init(p), flat.init(one(t.vals(3)))
    for k in (1, 2):
      g = t.vals(k)
      u, s = step(t.build(g), s, p)
      v, f = flat.update(one(g), f, one(t.vals(3)))
      leaves = jax.tree_util.tree_leaves(u)
      ctx.transitions += 1
      if [x.shape for x in leaves] != list(shapes):
        ctx.fail('flatten(%s): updates of shapes %s for gradients of shapes %s' % (label, [x.shape for x in leaves], shapes))
      if not np.allclose(np.asarray(one(leaves)), np.asarray(v), 1e-9, 1e-12):
        ctx.fail('flatten(%s) on leaves %s after other trees: %s instead of %s' % (label, shapes, one(leaves), v))
    ctx.states += 2
  ctx.traces += len(trees) * 2
  ctx.outcomes.add((label, len(trees)))


def UNITS(tier):
  T = tier == 'thorough'
  u = []
  labels = [l for l, _, _ in inners()] + list(MORE)
  for label in dict.fromkeys(labels):
    for tree in ALL:
      u.append(('real-%s-%s' % (label, tree), check, dict(
          label=label, tree=tree, letters='az' if not T else 'azb', depth=4 if T else 2, against='real')))
    for tree in ('nest', 'ranks'):
      u.append(('model-%s-%s' % (label, tree), check, dict(label=label, tree=tree, letters='abz', depth=4 if T else 3)))
  for label in ('mom', 'adamw'):
    u.append(('reuse-' + label, reuse, dict(label=label, n=3 if T else 2, mode='eager')))
  for label in ('mom', 'adamw', 'clip'):
    u.append(('closed-' + label, check, dict(label=label, tree='dict', letters='abz', depth=6 if T else 5,
                                             closed=True, params=None)))
    u.append(('eager-' + label, check, dict(label=label, tree='nest', letters='ab', depth=3, mode='eager')))
    u.append(('x32-' + label, check, dict(label=label, tree='nest', letters='ab', depth=4, rtol=1e-4, atol=1e-5,
                                          x64=False)))
  for label in ('mom', 'adamw', 'clip', 'clipnorm'):
    for tree in LARGE:
      u.append(('real-%s-%s' % (label, tree), check, dict(label=label, tree=tree, letters='ab', depth=2, against='real')))
  return u
