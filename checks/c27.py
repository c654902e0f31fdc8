"""C27: private aggregation bounds each example and adds calibrated noise."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc import noise
from mc.trees import Tree, close, leaves_of, worst
from mc.wrap import sched

ASSUMPTIONS = [
    'per-example gradients outside the alphabet behave like those in it',
    'the distribution of the noise is judged on the complete set of draws of the explored runs, with margins of 6 standard errors',
]

CLIP = 1.3


def examples(t, clip=CLIP):
  """Letters -> one example's gradients (list of leaves)."""
  def norm(l):
    return np.sqrt(sum((x**2).sum() for x in l))

  def scaled(l, r):
    return [x * (r / norm(l)) for x in l]
  base, other = t.vals(1), t.vals(5)
  out = {
      'z': t.zeros(),
      'u': scaled(base, 0.4 * clip),
      'e': scaled(t.vals(2), clip),
      'a': scaled(base, 3. * clip),
      'n': scaled(base, -2.5 * clip),
      'L': scaled(other, 1e6),
      's': scaled(other, 1e-6),
      # Every leaf is below the threshold; only all leaves together exceed it.
      'j': [x * (0.9 * clip / max(np.sqrt((x**2).sum()), 1e-30)) for x in base],
      'h': t.hot(-1, 5. * clip),
      'H': t.hot(0, -0.7 * clip),
  }
  return out


def batched(t, exs):
  return [np.stack([e[i] for e in exs]) for i in range(t.n)]


def aggregate(exs, clip):
  """The documented aggregation without noise."""
  out = None
  for e in exs:
    n = np.sqrt(sum((x**2).sum() for x in e))
    c = [x / max(n / clip, 1.) for x in e]
    out = c if out is None else [a + b for a, b in zip(out, c)]
  return [a / len(exs) for a in out]


def values(ctx, tree, letters, sizes, clip=CLIP, mode='vmap', rtol=1e-9, dtype=None, neighbours=True):
  """All batches; exact values; all pairs of batches that differ in one example."""
  t = Tree(tree)
  ex = examples(t, clip)
  tx = optax.differentially_private_aggregate(clip, 0., 7)
  s = tx.init(t.build(t.zeros(), dtype))
  f = lambda g: tx.update(g, s)[0]
  for size in sizes:
    words = list(itertools.product(letters, repeat=size))
    bs = [batched(t, [ex[c] for c in w]) for w in words]
    if mode == 'vmap':
      res = leaves_of(jax.jit(jax.vmap(f))(t.build([np.stack([b[i] for b in bs]) for i in range(t.n)], dtype)))
      got = [[r[k] for r in res] for k in range(len(words))]
    else:
      g = f if mode == 'eager' else jax.jit(f)
      got = [leaves_of(g(t.build(b, dtype))) for b in bs]
    table = {}
    for w, u in zip(words, got):
      e = aggregate([ex[c] for c in w], clip)
      ctx.transitions += 1
      if not close(u, e, rtol, rtol * clip):
        ctx.fail('clip %s, batch %s: %s' % (clip, ''.join(w), worst(u, e)), batch=''.join(w))
      n = np.sqrt(sum((x**2).sum() for x in u))
      if n > clip * (1 + 1e-5):
        ctx.fail('batch %s: the average has norm %g > clip %g' % (''.join(w), n, clip))
      table[w] = np.concatenate([x.reshape(-1) for x in u])
      ctx.outcomes.add((size, float(np.round(n, 5))))
    if neighbours:
      for w in words:
        for k in range(size):
          for c in letters:
            if c > w[k]:
              v = w[:k] + (c,) + w[k + 1:]
              ctx.transitions += 1
              dist = np.linalg.norm(table[w] - table[v])
              if dist > 2 * clip / size * (1 + 1e-5):
                ctx.fail('batches %s and %s differ in one example but their aggregates by %g > 2*clip/batch = %g' % (
                    ''.join(w), ''.join(v), dist, 2 * clip / size), batches=[''.join(w), ''.join(v)])
    ctx.states += len(words)
    ctx.traces += len(words)
  ctx.sample({'tree': tree, 'letters': letters, 'batch sizes': list(sizes)})


def run(tx, t, batches, dtype=None, jit=True):
  s = tx.init(t.build(t.zeros(), dtype))
  f = jax.jit(tx.update) if jit else tx.update
  out = []
  for b in batches:
    u, s = f(t.build(b, dtype), s)
    out.append(leaves_of(u))
  return out


def flat(run_):
  return np.array([np.concatenate([x.reshape(-1) for x in u]) for u in run_])


def draws(ctx, tree, steps, seeds, size=2, shared=20):
  """The draws of complete runs: scale, independence, reproducibility."""
  t = Tree(tree)
  ex = examples(t)
  zero = batched(t, [ex['z']] * size)
  every = []
  for seed in seeds:
    if shared and seed != seeds[0]:
      every.append(flat(run(optax.differentially_private_aggregate(1., 1., seed), t, [zero] * shared)) * size)
      continue
    mk = lambda clip, mult, seed=seed: optax.differentially_private_aggregate(clip, mult, seed)
    base = flat(run(mk(1., 1.), t, [zero] * steps)) * size
    ctx.transitions += steps
    noise.judge(ctx, 'seed %d on %s' % (seed, tree), base)
    again = flat(run(mk(1., 1.), t, [zero] * steps)) * size
    if not np.array_equal(base, again):
      ctx.fail('seed %d does not reproduce its noise' % seed)
    for clip, mult, b in itertools.product((0.25, 1., 3.), (0.5, 1.1, 4.), (1, 2, 5)):
      n = min(steps, 3)
      u = flat(run(mk(clip, mult), t, [batched(t, [ex['z']] * b)] * n, jit=False))
      ctx.transitions += n
      if not np.allclose(u, base[:n] * clip * mult / b, rtol=1e-9, atol=1e-12):
        ctx.fail('clip %s, multiplier %s, batch size %d: the noise is not clip*multiplier/batch size times the draws' % (clip, mult, b))
    # The noise does not depend on the data.
    n = min(steps, 6)
    word = [batched(t, [ex[c] for c in w]) for w in ('az', 'Lu', 'ee', 'zz', 'nh', 'jj')][:n]
    u = flat(run(mk(CLIP, 0.8), t, word, jit=False))
    e = flat(run(mk(CLIP, 0.), t, word, jit=False)) + base[:n] * CLIP * 0.8 / 2
    ctx.transitions += 2 * n
    if not np.allclose(u, e, rtol=1e-7, atol=1e-9):
      ctx.fail('the noise depends on the gradients')
    every.append(base)
    ctx.traces += 1
    ctx.states += steps
  joint = np.sort(np.abs(np.concatenate([b.reshape(-1) for b in every])))
  if (np.diff(joint) < 1e-13).any():
    ctx.fail('different seeds share draws')
  ctx.sample({'tree': tree, 'steps': steps, 'seeds': list(seeds)})


def same_leaf_draws(ctx, tree, steps, seed=3):
  """Leaves of equal shape receive different noise at every step, also in single precision."""
  t = Tree(tree)
  zero = batched(t, [t.zeros()] * 2)
  d = run(optax.differentially_private_aggregate(1., 1., seed), t, [zero] * steps)
  seen = {}
  for i, u in enumerate(d):
    for j, l in enumerate(u):
      if l.size < 2:
        continue
      k = np.round(np.abs(l), 6).tobytes()
      ctx.transitions += 1
      if k in seen:
        ctx.fail('step %d leaf %d repeats the noise of step %d leaf %d' % ((i, j) + seen[k]))
      seen[k] = (i, j)
  ctx.states += steps
  ctx.traces += 1


def dpsgd(ctx, tree, words, depth, lr, momentum, nesterov, mult, mode='jit'):
  """The optimiser over all histories of batches against aggregation + momentum."""
  t = Tree(tree)
  ex = examples(t)
  tx = optax.dpsgd(lr, CLIP, mult, 11, momentum, nesterov)
  ag = optax.differentially_private_aggregate(CLIP, mult, 11)
  f = jax.jit(tx.update) if mode == 'jit' else tx.update
  fa = jax.jit(ag.update)
  gs = {w: t.build(batched(t, [ex[c] for c in w])) for w in words}
  p = t.build(t.vals(9, 0.8))
  stack = [((), tx.init(p), ag.init(p), t.zeros())]
  while stack:
    h, s, sa, tr = stack.pop()
    for w in words:
      u, s1 = f(gs[w], s, p)
      a, sa1 = fa(gs[w], sa)
      a = leaves_of(a)
      if mult == 0:
        e0 = aggregate([ex[c] for c in w], CLIP)
        if not close(a, e0, 1e-9, 1e-9):
          ctx.fail('aggregate of %s: %s' % (w, worst(a, e0)))
      tr1 = tr
      if momentum is not None:
        tr1 = [x + momentum * y for x, y in zip(a, tr)]
        a = [x + momentum * y for x, y in zip(a, tr1)] if nesterov else tr1
      l = float(lr(len(h))) if callable(lr) else lr
      e = [-l * x for x in a]
      ctx.transitions += 1
      u = leaves_of(u)
      if not close(u, e, 1e-9, 1e-12):
        ctx.fail('dpsgd after %s: %s' % (h + (w,), worst(u, e)), history=h + (w,))
      ctx.outcomes.add(float(np.round(u[0].reshape(-1)[0], 6)))
      if len(h) + 1 < depth:
        ctx.states += 1
        stack.append((h + (w,), s1, sa1, tr1))
      else:
        ctx.traces += 1


def rejects(ctx):
  """Gradients without a common batch axis."""
  a = lambda *s: jnp.ones(s)
  tx = optax.differentially_private_aggregate(1., 0.5, 0)
  sg = optax.dpsgd(0.1, 1., 0.5, 0)
  bad = [a(), {'x': a()}, {'x': a(2), 'y': a()}, {'x': a(), 'y': a(2)}, {'x': a(2, 3), 'y': a(3, 2)},
         [a(4), a(4, 2), a(3)], (a(1, 2), a(2, 1)), {'x': a(3), 'y': {'z': [a(3, 2), a(2)]}}]
  good = [a(2), {'x': a(3), 'y': a(3, 2)}, [a(1), a(1, 5)], (a(2, 2, 2), {'k': [a(2), None]}), a(4, 0)]
  for t in (tx, sg):
    for wrap in (lambda f: f, jax.jit):
      for i, g in enumerate(bad):
        ctx.transitions += 1
        try:
          wrap(t.update)(g, t.init(g))
        except ValueError:
          continue
        ctx.fail('gradients number %d without a common batch axis were accepted' % i)
      for g in good:
        ctx.transitions += 1
        p = jax.tree_util.tree_map(lambda x: x[0], g)
        u, _ = wrap(t.update)(g, t.init(p))
        if [x.shape for x in leaves_of(u)] != [x.shape for x in leaves_of(p)]:
          ctx.fail('the aggregate of a batch does not have the shape of one example')
  ctx.states += len(bad) + len(good)
  ctx.traces += 1


def UNITS(tier):
  T = tier == 'thorough'
  u = [('rejects', rejects, {})]
  L = 'zueanLsjhH'
  for tree in ('pair', 'scalar', 'dict', 'nest', 'many', 'deep', 'ranks', 'big'):
    small = tree in ('big', 'many', 'ranks') and not T
    u.append(('values-' + tree, values, dict(tree=tree, letters=L, sizes=(1, 2, 3) if not small else (1, 2))))
  u.append(('values4-pair', values, dict(tree='pair', letters='zueaL', sizes=(4,))))
  u.append(('values4-dict', values, dict(tree='dict', letters='ujanh', sizes=(4, 5) if T else (4,))))
  for clip in (1e-3, 0.5, 7., 1e4):
    u.append(('values-clip%g' % clip, values, dict(tree='dict', letters=L, sizes=(1, 2, 3), clip=clip)))
  u.append(('eager-nest', values, dict(tree='nest', letters='zuajL', sizes=(1, 2), mode='eager')))
  u.append(('eager-dict', values, dict(tree='dict', letters='zuajL', sizes=(1, 2, 7) if T else (1, 2), mode='jit')))
  u.append(('values32', values, dict(tree='dict', letters='zueanLjhH', sizes=(1, 2, 3), x64=False, rtol=1e-5)))
  for tree, steps in (('scalar', 2000), ('pair', 1000), ('many', 400), ('nest', 300), ('big', 60 if T else 20)):
    for seed in (0, 42) if not T else (0, 1, 42, 2**31 - 1):
      u.append(('draws-%s-%d' % (tree, seed), draws, dict(tree=tree, steps=steps, seeds=(seed, seed + 1 if seed < 2**31 - 1 else 5))))
  u.append(('distinct32-pair', same_leaf_draws, dict(tree='pair', steps=300, x64=False)))
  u.append(('distinct32-many', same_leaf_draws, dict(tree='many', steps=300, x64=False)))
  ws = ('aa', 'uz', 'Ln', 'jh')
  for tree in ('dict', 'pair'):
    for momentum, nesterov in ((None, False), (0.9, False), (0.9, True), (0., False), (None, True)):
      for mult in (0., 1.3):
        u.append(('dpsgd-%s-%s-%s-%s' % (tree, momentum, nesterov, mult), dpsgd,
                  dict(tree=tree, words=ws, depth=5 if T else 4, lr=0.3, momentum=momentum, nesterov=nesterov, mult=mult)))
  u.append(('dpsgd-schedule', dpsgd, dict(tree='nest', words=ws, depth=4, lr=sched, momentum=0.5, nesterov=True, mult=0.7)))
  u.append(('dpsgd-eager', dpsgd, dict(tree='dict', words=ws[:2], depth=3, lr=sched, momentum=0.5, nesterov=False, mult=0.7, mode='eager')))
  return u
