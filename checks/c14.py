"""C14: scaling, weight decay, centralisation and the identity are exact and leafwise."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc import models as m
from mc.explore import Spec, explore, canon_sut
from mc.std import deep, wide, with_params
from mc.trees import LARGE, ALL, Tree, grads, leaves_of

ASSUMPTIONS = ['gradient and parameter values outside the alphabet behave like those in it']

CASES = [('scale%g' % c, lambda c=c: optax.scale(c), m.Scale(c)) for c in (0., 1., -1., 0.3, -2.5, 1e-6, 1e4)]
CASES += [('decay%g' % c, lambda c=c: optax.add_decayed_weights(c), m.Decay(c)) for c in (0., 0.1, -0.5, 1., 30.)]
CASES += [('additive%g' % c, lambda c=c: optax.additive_weight_decay(c), m.Decay(c)) for c in (0., 0.1)]
CASES += [('centralize', lambda: optax.centralize(), m.Centralize()), ('identity', lambda: optax.identity(), m.Identity())]
BY = {c[0]: c for c in CASES}


def isolated(ctx, tree):
  """Changing one leaf of gradients or parameters changes that leaf alone."""
  t = Tree(tree)
  for label, make, model in CASES:
    tx = make()
    step = jax.jit(tx.update)
    g, p = t.vals(1), t.vals(9)
    ref = step(t.build(g), tx.init(t.build(p)), t.build(p))[0]
    ref = jax.tree_util.tree_leaves(ref)
    for i in range(t.n):
      for which in ('gradient', 'parameter'):
        g2, p2 = [x.copy() for x in g], [x.copy() for x in p]
        (g2 if which == 'gradient' else p2)[i] += 3.7
        u = jax.tree_util.tree_leaves(step(t.build(g2), tx.init(t.build(p2)), t.build(p2))[0])
        ctx.transitions += 1
        for j in range(t.n):
          if j != i and canon_sut(u[j]) != canon_sut(ref[j]):
            ctx.fail('%s: leaf %d changes with the %s at leaf %d' % (label, j, which, i))
    ctx.states += 1
    ctx.traces += 1


def shapes(ctx, rank, dims):
  """Centralisation on every shape of a rank."""
  for shape in itertools.product(dims, repeat=rank):
    t = Tree('leaf', [np.zeros(shape), np.zeros((2, 2))])
    explore(ctx, Spec(optax.centralize(), m.Centralize(), t, label='centralize %s' % (shape,)), grads(t, 'zabLp'), 1)


def zero_mean(ctx):
  """The result has zero mean over all axes but the first, and is idempotent."""
  for shape in ((2, 3), (3, 1, 2), (2, 2, 2, 2), (1, 4), (4, 1), (2, 1, 2, 1, 2)):
    for k in range(6):
      x = Tree('leaf', [np.zeros(shape)]).vals(k, 10.**(k - 2))[0]
      u = np.asarray(optax.centralize().update(jnp.asarray(x), optax.EmptyState())[0])
      ctx.transitions += 1
      if np.abs(u.mean(tuple(range(1, x.ndim)))).max() > 1e-12 * 10.**(k - 2):
        ctx.fail('shape %s: the mean of a slice is not 0' % (shape,))
      v = np.asarray(optax.centralize().update(jnp.asarray(u), optax.EmptyState())[0])
      if np.abs(u - v).max() > 1e-12 * 10.**(k - 2):
        ctx.fail('shape %s: centralising twice changes the result' % (shape,))
  ctx.states += 1
  ctx.traces += 1


def passthrough(ctx, tree):
  """The identity and unit scale return the very same numbers, NaN and infinity included."""
  t = Tree(tree)
  for dt in (None, 'float32', 'bfloat16'):
    for label, tx in (('identity', optax.identity()), ('scale1', optax.scale(1.)), ('decay0', optax.add_decayed_weights(0.))):
      for x, g in grads(t, 'zaLstNIJ'):
        gt = t.build(g, dt)
        p = t.build(t.vals(3), dt)
        u, _ = tx.update(gt, tx.init(p), p)
        ctx.transitions += 1
        if [a.dtype for a in jax.tree_util.tree_leaves(u)] != [a.dtype for a in jax.tree_util.tree_leaves(gt)]:
          ctx.fail('%s changed the dtype' % label)
        if not all(np.array_equal(a, b, equal_nan=True) for a, b in zip(leaves_of(u), leaves_of(gt))):
          ctx.fail('%s changed the gradients %s of %s' % (label, x, tree))
  ctx.states += 1
  ctx.traces += 1


def UNITS(tier):
  T = tier == 'thorough'
  u = [('zero_mean', zero_mean, {})]
  for tree in ALL:
    u.append(('tree-' + tree, wide, dict(cases=CASES, tree=tree, letters='zabLs', depth=2, mode='jit', params=('p1', 'p0'))))
    u.append(('eager-' + tree, wide, dict(cases=CASES, tree=tree, letters='zaL', depth=1, mode='eager', params=('p1', 'p2'))))
    u.append(('isolated-' + tree, isolated, dict(tree=tree)))
    u.append(('pass-' + tree, passthrough, dict(tree=tree)))
    u.append(('x32-' + tree, wide, dict(cases=CASES, tree=tree, letters='zaLs', depth=1, mode='jit', params=('p1', 'p0'),
                                        rtol=1e-5, atol=1e-5, x64=False)))
  for r in (0, 1, 2, 3, 4):
    u.append(('shapes-%d' % r, shapes, dict(rank=r, dims=(1, 2, 3) if r < 4 or T else (1, 2))))
  for c in ('scale0.3', 'decay0.1', 'centralize', 'identity'):
    _, mk, mo = BY[c]
    u.append(('closed-' + c, deep, dict(make=mk, model=mo, tree='dict', letters='zabcL', depth=6 if T else 5, closed=True, label=c)))
  u.append(('chain', deep, dict(make=lambda: optax.chain(optax.centralize(), optax.add_decayed_weights(0.1), optax.scale(-0.5)),
                                model=m.Chain(m.Centralize(), m.Decay(0.1), m.Scale(-0.5)), tree='nest', letters='zahH', depth=5,
                                closed=True, label='chain')))
  for tree in LARGE:
    u.append(('tree-' + tree, wide, dict(cases=CASES, tree=tree, letters='ab', depth=2, mode='jit', params=('p1',))))
  return u
