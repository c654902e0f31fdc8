"""C28: added gradient noise has the documented annealed variance."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc import noise
from mc.explore import set_counts
from mc.std import pow2_counts
from mc.trees import Tree, close, grads, leaves_of, worst
from mc.wrap import sched

ASSUMPTIONS = [
    'eta, gamma and gradients outside the grids behave like those in them',
    'the distribution of the noise is judged on the complete set of draws of the explored runs, with margins of 6 standard errors',
]
MAX = 2**31 - 1


def flat(leaves):
  return np.concatenate([x.reshape(-1) for x in leaves])


def run(tx, t, steps, gs=None, jit=True, start=None, dtype=None):
  """The noise of every step of a run."""
  p = t.build(t.zeros(), dtype)
  s = tx.init(p)
  if start is not None:
    s = set_counts(s, start)
  f = jax.jit(tx.update) if jit else tx.update
  zero = t.build(t.zeros(), dtype)
  out = []
  for i in range(steps):
    g = zero if gs is None else t.build(gs[i % len(gs)], dtype)
    u, s = f(g, s)
    n = flat(leaves_of(u))
    out.append(n if gs is None else n - flat(gs[i % len(gs)]))
  return np.array(out)


def draws(ctx, tree, steps, seed, other):
  """Independence, freshness, reproducibility of all draws of a run."""
  t = Tree(tree)
  tx = optax.add_noise(1., 0., seed)
  base = run(tx, t, steps)
  ctx.transitions += 3 * steps
  noise.judge(ctx, 'seed %d on %s' % (seed, tree), base)
  if not np.array_equal(base, run(tx, t, steps)) or not np.array_equal(
      base[:5], run(optax.add_noise(1., 0., seed), t, steps)[:5]):
    ctx.fail('seed %d does not reproduce its noise' % seed)
  b = run(optax.add_noise(1., 0., other), t, min(steps, 50))
  joint = np.sort(np.abs(np.concatenate([base.reshape(-1), b.reshape(-1)])))
  if (np.diff(joint) < 1e-13).any():
    ctx.fail('seeds %d and %d share draws' % (seed, other))
  ctx.states += steps
  ctx.traces += 1
  ctx.sample({'tree': tree, 'steps': steps, 'seed': seed})


def law(ctx, tree, grid, steps, seed=3, counts=(), mode='eager', rtol=1e-9):
  """Noise of every configuration, step by step, against the draws with variance 1."""
  t = Tree(tree)
  d1 = run(optax.add_noise(1., 0., seed), t, max(steps, 2))
  for eta, gamma in grid:
    tx = optax.add_noise(eta, gamma, seed)
    d = run(tx, t, steps, jit=mode == 'jit')
    for i in range(steps):
      e = d1[i] * np.sqrt(eta / (i + 1.)**gamma)
      ctx.transitions += 1
      if not np.allclose(d[i], e, rtol=rtol, atol=rtol * max(1., np.sqrt(eta)) * 1e-2):
        ctx.fail('eta %s, gamma %s: the noise of update %d is %s times the draws of variance 1, expected %g' % (
            eta, gamma, i + 1, np.round(d[i] / d1[i], 6)[:4], np.sqrt(eta / (i + 1.)**gamma)))
    f = jax.jit(tx.update)
    s0 = tx.init(t.build(t.zeros()))
    z = t.build(t.zeros())
    for n in counts:
      u, s = f(z, set_counts(s0, n))
      u2, _ = f(z, s)
      for k, v in ((1, u), (2, u2)):
        m = min(n + k, MAX)
        e = d1[k - 1] * np.sqrt(eta / float(m)**gamma)
        ctx.transitions += 1
        v = flat(leaves_of(v))
        # Single-precision counts beyond 2**24 are rounded.
        r = rtol if m <= 2**24 else max(rtol, 1e-5)
        if not np.allclose(v, e, rtol=r, atol=r * max(1., np.sqrt(eta)) * 1e-2):
          ctx.fail('eta %s, gamma %s: noise of update %d is %s times the draws of variance 1, expected %g' % (
              eta, gamma, m, np.round(v / d1[k - 1], 8)[:4], np.sqrt(eta / float(m)**gamma)))
    ctx.states += steps + len(counts)
    ctx.traces += 1
    ctx.outcomes.add((eta, gamma, float(np.round(d[-1][0], 8))))
  ctx.sample({'tree': tree, 'configurations': len(grid), 'updates': steps})


def additive(ctx, tree, letters, depth, eta, gamma, seed=5, mode='eager'):
  """All histories of gradients: the noise is added, and does not depend on them."""
  t = Tree(tree)
  tx = optax.add_noise(eta, gamma, seed)
  f = jax.jit(tx.update) if mode == 'jit' else tx.update
  d = run(tx, t, depth)
  al = grads(t, letters)
  gs = {x: t.build(g) for x, g in al}
  stack = [((), tx.init(t.build(t.zeros())))]
  while stack:
    h, s = stack.pop()
    for x, g in al:
      u, s1 = f(gs[x], s, t.build(t.vals(9)) if len(h) % 2 else None)
      n = flat(leaves_of(u)) - flat(g)
      big = max(1., np.abs(flat(g)).max())
      ctx.transitions += 1
      if not np.allclose(n, d[len(h)], rtol=1e-7, atol=1e-12 * big):
        ctx.fail('after %s the noise depends on the gradients' % (h + (x,),), history=h + (x,))
      if len(h) + 1 < depth:
        ctx.states += 1
        stack.append((h + (x,), s1))
      else:
        ctx.traces += 1
        ctx.outcomes.add(float(np.round(n[0], 8)))


def fresh_leaves(ctx, tree, steps, seed=3, dtype=None):
  """Leaves of equal shape receive different noise at every step."""
  t = Tree(tree)
  d = run(optax.add_noise(1., 0.55, seed), t, steps, dtype=dtype)
  seen = {}
  for i, row in enumerate(d * np.sqrt((np.arange(steps) + 1.)**0.55)[:, None]):
    k = 0
    for j, shape in enumerate(t.shapes):
      size = int(np.prod(shape, dtype=np.int64))
      l = row[k:k + size]
      k += size
      if size < 2:
        continue
      key = np.round(np.abs(l), 4).tobytes()
      ctx.transitions += 1
      if key in seen:
        ctx.fail('step %d leaf %d repeats the noise of step %d leaf %d' % ((i, j) + seen[key]))
      seen[key] = (i, j)
  ctx.states += steps
  ctx.traces += 1


def carried(ctx, tree, cut, seeds, more=3, dtype=None):
  """The noise to come is held by the state: it does not matter which instance goes on."""
  t = Tree(tree)
  p = t.build(t.zeros(), dtype)
  f = {k: jax.jit(optax.add_noise(1., 0., k).update) for k in seeds}
  init = {k: optax.add_noise(1., 0., k).init(p) for k in seeds}
  def go(k, s, n):
    out = []
    for _ in range(n):
      u, s = f[k](p, s)
      out.append(flat(leaves_of(u)))
    return out, s
  for a in seeds:
    ref, _ = go(a, init[a], cut + more)
    _, s = go(a, init[a], cut)
    for b in seeds:
      got, _ = go(b, s, more)
      ctx.transitions += more
      ctx.traces += 1
      if not np.array_equal(got, ref[cut:]):
        ctx.fail('a run of seed %d saved after %d steps and continued by an instance with seed %d has other noise' % (a, cut, b))
    # another key in the state: other noise
    other = go(a, s._replace(rng_key=init[[k for k in seeds if k != a][0]].rng_key), more)[0]
    joint = np.sort(np.abs(np.concatenate([flat(other), flat(ref)])))
    if (np.diff(joint) < (1e-13 if dtype is None else 0)).any():
      ctx.fail('the noise does not change with the key in the state (seed %d, after %d steps)' % (a, cut))
  ctx.states += cut + more
  ctx.outcomes.add((tree, cut))


def noisy(ctx, tree, letters, depth, lr, eta, gamma, seed, mode='jit', defaults=False):
  """Noisy SGD over all histories: minus the learning rate times the noisy gradient."""
  t = Tree(tree)
  tx = optax.noisy_sgd(lr) if defaults else optax.noisy_sgd(lr, eta, gamma, seed)
  if defaults:
    eta, gamma, seed = 0.01, 0.55, 0
  d = run(optax.add_noise(1., 0., seed), t, depth)
  f = jax.jit(tx.update) if mode == 'jit' else tx.update
  al = grads(t, letters)
  gs = {x: t.build(g) for x, g in al}
  p = t.build(t.vals(9))
  stack = [((), tx.init(p))]
  while stack:
    h, s = stack.pop()
    for x, g in al:
      u, s1 = f(gs[x], s, p)
      n = len(h) + 1
      l = float(lr(n - 1)) if callable(lr) else lr
      e = -l * (flat(g) + d[n - 1] * np.sqrt(eta / float(n)**gamma))
      ctx.transitions += 1
      if not np.allclose(flat(leaves_of(u)), e, rtol=1e-8, atol=1e-12):
        ctx.fail('noisy_sgd after %s: got %s, expected %s' % (h + (x,), flat(leaves_of(u))[:3], e[:3]), history=h + (x,))
      if len(h) + 1 < depth:
        ctx.states += 1
        stack.append((h + (x,), s1))
      else:
        ctx.traces += 1
        ctx.outcomes.add(float(np.round(e[0], 8)))


def UNITS(tier):
  T = tier == 'thorough'
  u = []
  for tree, steps in (('scalar', 3000), ('pair', 1500), ('many', 400), ('nest', 300), ('dict', 500), ('big', 80 if T else 20)):
    for seed, other in ((0, 1), (42, 43)) if not T else ((0, 1), (1, 10), (42, 43), (2**31 - 1, 0)):
      u.append(('draws-%s-%d' % (tree, seed), draws, dict(tree=tree, steps=steps, seed=seed, other=other)))
  etas = (0., 1e-4, 0.01, 0.3, 1., 9.)
  gammas = (0., 0.25, 0.5, 0.55, 1., 1.5, 2., 3.)
  grid = list(itertools.product(etas, gammas))
  ints = list(itertools.product((0.01, 1, 4), (0, 1, 2, 3, 5)))
  for i in range(4):
    u.append(('law-pair-%d' % i, law, dict(tree='pair', grid=grid[i::4], steps=12 if not T else 60)))
  u.append(('law-ints', law, dict(tree='pair', grid=ints, steps=6)))
  u.append(('law-nest', law, dict(tree='nest', grid=grid[::7], steps=5)))
  ns = pow2_counts()
  for i, g in enumerate(((0.01, 0.55), (1., 1.), (0.3, 0.25), (4., 2.), (1., 2), (2, 1), (1., 3), (0.5, 0))):
    u.append(('counts-%d' % i, law, dict(tree='pair', grid=[g], steps=1, counts=ns)))
  u.append(('counts32', law, dict(tree='pair', grid=[(0.01, 0.55), (4., 2)], steps=50, counts=ns, x64=False, rtol=1e-4)))
  u.append(('long', law, dict(tree='pair', grid=[(0.01, 0.55), (1., 1.)], steps=3000 if T else 600, mode='jit')))
  for tree in ('dict', 'nest', 'many'):
    u.append(('additive-' + tree, additive, dict(tree=tree, letters='zabLsp', depth=3, eta=0.3, gamma=0.55)))
  u.append(('additive-jit', additive, dict(tree='dict', letters='zabLsp', depth=5 if T else 4, eta=0.3, gamma=0.55, mode='jit')))
  for tree in ('scalar', 'pair', 'nest'):
    for cut in (0, 1, 4):
      u.append(('carried-%s-%d' % (tree, cut), carried, dict(tree=tree, cut=cut, seeds=(0, 3, 2**20) if not T else (0, 1, 3, 7, 2**20))))
  for tree in ('pair', 'many'):
    u.append(('fresh32-' + tree, fresh_leaves, dict(tree=tree, steps=300, x64=False)))
    u.append(('fresh-' + tree, fresh_leaves, dict(tree=tree, steps=300)))
  for i, (lr, eta, gamma, seed) in enumerate(((0.1, 0.01, 0.55, 0), (1., 4., 1., 3), (sched, 0.3, 0.5, 9), (-0.5, 1., 0., 2))):
    u.append(('noisy-%d' % i, noisy, dict(tree='dict', letters='zabL', depth=4 if T else 3, lr=lr, eta=eta, gamma=gamma, seed=seed)))
  u.append(('noisy-eager', noisy, dict(tree='pair', letters='zaL', depth=3, lr=sched, eta=0.3, gamma=0.5, seed=4, mode='eager')))
  u.append(('noisy-defaults', noisy, dict(tree='nest', letters='za', depth=3, lr=0.2, eta=0, gamma=0, seed=0, defaults=True)))
  return u
