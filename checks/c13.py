"""C13: adaptive clipping limits each unit relative to its weights."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc import models as m
from mc.explore import Spec, explore, canon_sut
from mc.std import deep, wide
from mc.trees import LARGE, ALL, Tree, grads, close, leaves_of, worst

ASSUMPTIONS = ['gradient and parameter values outside the alphabet behave like those in it']


def unit_scaled(shape, norms, k):
  """An array whose units have the given norms."""
  n = int(np.prod(shape, dtype=int))
  x = (np.where((np.arange(n) + k) % 2, -1., 1.) * (1 + 0.3 * np.arange(n))).reshape(-1)
  us = m.units_of(shape)
  for u, nn in zip(us, norms):
    x[u] *= nn / np.sqrt(np.sum(x[u]**2))
  return x.reshape(shape)


def units(ctx, shape, cases, gn, pn):
  """Every combination of per-unit gradient and parameter norms."""
  k = len(m.units_of(shape))
  for clipping, eps in cases:
    tx = optax.adaptive_grad_clip(clipping, eps)
    step = jax.jit(tx.update)
    mod = m.Agc(clipping, eps)
    for a in itertools.product(gn, repeat=k):
      for b in itertools.product(pn, repeat=k):
        g, p = unit_scaled(shape, a, 0), unit_scaled(shape, b, 1)
        u = leaves_of(step(jnp.asarray(g), (), jnp.asarray(p))[0] if False else
                      step(jnp.asarray(g), tx.init(jnp.asarray(p)), jnp.asarray(p))[0])
        e = mod.f([g], [p])
        ctx.transitions += 1
        ctx.states += 1
        if not close(u, e, 1e-9, 1e-14):
          ctx.fail('shape %s, clipping %g, eps %g: %s' % (shape, clipping, eps, worst(u, e)),
                   gradient_norms=a, parameter_norms=b)
        # The bound itself, and nothing within it is touched.
        for un, x, w in zip(m.units_of(shape), a, b):
          limit = clipping * max(w, eps)
          if np.sqrt(np.sum(u[0].reshape(-1)[un]**2)) > limit * (1 + 1e-6) + 1e-12:
            ctx.fail('shape %s: a unit exceeds its limit' % (shape,), gradient_norms=a, parameter_norms=b)
          if x < limit * (1 - 1e-9) and not (u[0].reshape(-1)[un] == g.reshape(-1)[un]).all():
            ctx.fail('shape %s: a unit within its limit was changed' % (shape,), gradient_norms=a)
        ctx.outcomes.add((a, b))
  ctx.traces += 1
  ctx.sample({'shape': list(shape), 'units': k, 'gradient norms': list(gn), 'parameter norms': list(pn)})


def shapes(ctx, rank, dims, mode):
  """Every shape of the given rank."""
  cases = [(0.01, 1e-3), (0.5, 1e-3), (0.5, 2.), (10., 1e-3)]
  for shape in itertools.product(dims, repeat=rank):
    t = Tree('leaf', [np.zeros(shape), np.zeros(2)])
    for c, e in cases[:: 1 if mode == 'eager' or rank < 4 else 2]:
      acts = [(x + n, g, p) for x, g in grads(t, 'zas' if rank < 4 else 'a')
              for n, p in (('p', t.vals(9, 0.8)), ('0', t.zeros()), ('L', t.vals(7, 50.)))]
      explore(ctx, Spec(optax.adaptive_grad_clip(c, e), m.Agc(c, e), t, mode=mode,
                        label='agc(%g,%g) of shape %s' % (c, e, shape)), acts, 1)


def rejects(ctx):
  """Five and six axes, two or more of them longer than one."""
  for rank in (5, 6):
    for shape in itertools.product((1, 2), repeat=rank):
      if sum(d > 1 for d in shape) < 2:
        continue
      x = jnp.ones(shape)
      tx = optax.adaptive_grad_clip(0.1)
      ctx.transitions += 1
      for tree in (x, {'a': jnp.ones(2), 'b': x}):
        try:
          jax.eval_shape(lambda g, p: tx.update(g, tx.init(p), p)[0], tree, tree)
        except ValueError:
          continue
        ctx.fail('shape %s was accepted' % (shape,))
  ctx.states += 1
  ctx.traces += 1


def UNITS(tier):
  T = tier == 'thorough'
  u = [('rejects', rejects, {})]
  gn, pn = (0., 1e-2, 0.3, 5.), (0., 0.5, 3.)
  cases = [(0.1, 1e-3), (1.0, 0.7)]
  for shape in ((), (1,), (3,), (1, 3), (3, 1), (1, 1), (2, 2), (3, 2), (2, 1, 2), (1, 2, 2), (1, 1, 3), (2, 1, 1),
                (2, 1, 1, 2), (1, 2, 1, 2), (2, 2, 1, 1), (1, 1, 1, 3), (1, 3, 1, 2)):
    u.append(('units-' + 'x'.join(map(str, shape)), units, dict(
        shape=shape, cases=cases, gn=gn if T or len(m.units_of(shape)) < 4 else gn[1:3], pn=pn)))
  for shape in ((2, 3), (2, 2, 1, 3), (1, 1, 1, 1)):
    u.append(('units3-' + 'x'.join(map(str, shape)), units, dict(shape=shape, cases=cases, gn=gn if T else gn[1::2], pn=pn)))
  for rank in (0, 1, 2, 3):
    u.append(('shapes-%d' % rank, shapes, dict(rank=rank, dims=(1, 2, 3), mode='jit')))
  u.append(('shapes-4', shapes, dict(rank=4, dims=(1, 2, 3) if T else (1, 2), mode='jit')))
  for rank in (1, 2, 3, 4):
    u.append(('eager-%d' % rank, shapes, dict(rank=rank, dims=(1, 2), mode='eager')))
  agc = [('agc%g-%g' % (c, e), lambda c=c, e=e: optax.adaptive_grad_clip(c, e), m.Agc(c, e))
         for c, e in ((0.01, 1e-3), (0.3, 1e-3), (0.3, 5.), (1e3, 1e-3))]
  for tree in ALL:
    if tree != 'rank5':
      u.append(('tree-' + tree, wide, dict(cases=agc, tree=tree, letters='zaLst', depth=2 if T else 1, mode='jit',
                                           params=('p1', 'p0', 'pL', 'p2'))))
  u.append(('closed', deep, dict(make=agc[1][1], model=agc[1][2], tree='dict', letters='zabLs', depth=5, closed=True, label='agc')))
  u.append(('chain', deep, dict(make=lambda: optax.chain(optax.adaptive_grad_clip(0.1), optax.sgd(0.1, 0.9)),
                                model=m.Chain(m.Agc(0.1), m.sgd(0.1, 0.9)), tree='nest', letters='zaLh', depth=5, closed=True,
                                label='agc+sgd')))
  u.append(('x32', wide, dict(cases=agc, tree='ranks', letters='zaLs', depth=1, mode='jit', params=('p1', 'p0', 'pL'),
                              rtol=1e-4, atol=1e-7, x64=False)))
  for tree in LARGE:
    u.append(('tree-' + tree, wide, dict(cases=agc, tree=tree, letters='aLs', depth=1, mode='jit', params=('p1', 'pL', 'p2'))))
  return u
