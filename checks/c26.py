"""C26: step counters count every update and saturate instead of wrapping."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax
from optax._src import numerics

from mc import catalog
from mc import models as m
from mc.explore import Spec, explore, set_counts
from mc.std import pow2_counts, with_params
from mc.trees import Tree, grads, close, leaves_of, worst
from mc.wrap import val

ASSUMPTIONS = ['gradient values outside the alphabet behave like those in it']
MAX = 2**31 - 1

COUNTING = {
    # name -> (constructor, reference model or None)
    'scale_by_schedule': (lambda: optax.scale_by_schedule(catalog.sched), m.BySchedule(catalog.sched)),
    'ema': (lambda: optax.ema(0.9), m.Ema(0.9)),
    'ema_raw': (lambda: optax.ema(0.9, False), m.Ema(0.9, False)),
    'scale_by_adam': (lambda: optax.scale_by_adam(), m.Adam()),
    'scale_by_belief': (lambda: optax.scale_by_belief(), m.Belief()),
    'scale_by_yogi': (lambda: optax.scale_by_yogi(), None),
    'scale_by_radam': (lambda: optax.scale_by_radam(), m.Radam()),
    'scale_by_radam_fast': (lambda: optax.scale_by_radam(0.5, 0.6), m.Radam(0.5, 0.6)),
    'add_noise': (lambda: optax.add_noise(0.1, 0.5, 3), None),
    'adam': (lambda: optax.adam(catalog.sched), m.adam(catalog.sched)),
    'adamw': (lambda: optax.adamw(catalog.sched), m.adamw(catalog.sched)),
    'lamb': (lambda: optax.lamb(catalog.sched), m.lamb(catalog.sched)),
    'sgd': (lambda: optax.sgd(catalog.sched, 0.9), m.sgd(catalog.sched, 0.9)),
    'adabelief': (lambda: optax.adabelief(catalog.sched), m.adabelief(catalog.sched)),
    'radam': (lambda: optax.radam(catalog.sched), m.radam(catalog.sched)),
    'rmsprop': (lambda: optax.rmsprop(catalog.sched, momentum=0.9), m.rmsprop(catalog.sched, momentum=0.9)),
    'adagrad': (lambda: optax.adagrad(catalog.sched), m.adagrad(catalog.sched)),
    'yogi': (lambda: optax.yogi(catalog.sched), None),
    'noisy_sgd': (lambda: optax.noisy_sgd(catalog.sched), None),
    'inject': (lambda: optax.inject_hyperparams(optax.adam)(catalog.sched), None),
    'masked': (lambda: optax.masked(optax.adam(0.1), catalog.MASK), None),
    'flatten': (lambda: optax.flatten(optax.adam(0.1)), m.Flatten(m.adam(0.1))),
    'chain': (lambda: optax.chain(optax.ema(0.9), optax.scale_by_schedule(catalog.sched), optax.scale_by_adam()),
              m.Chain(m.Ema(0.9), m.BySchedule(catalog.sched), m.Adam())),
}


def counts_in(s):
  """Every field called `count` in a state."""
  out = []
  if isinstance(s, tuple) and hasattr(s, '_fields'):
    for f in s._fields:
      out += [getattr(s, f)] if f == 'count' else counts_in(getattr(s, f))
  elif isinstance(s, (list, tuple)):
    for x in s:
      out += counts_in(x)
  elif isinstance(s, dict):
    for k in sorted(s):
      out += counts_in(s[k])
  return out


def count(ctx, name, ns, steps, letters='ab', mode='jit', tree='pair', rtol=1e-9):
  """From every count n: the next counts, the updates, and their finiteness."""
  make, model = COUNTING[name]
  t = Tree(tree)
  tx = make()
  p = t.build(t.vals(9, 0.8))
  step = jax.jit(tx.update) if mode == 'jit' else tx.update
  gs = [(x, g, t.build(g)) for x, g in grads(t, letters)]
  s0 = tx.init(p)
  k = len(counts_in(s0))
  if not k:
    ctx.fail('%s has no counter' % name)
  if any(val(c) != 0 or c.dtype != jnp.int32 for c in counts_in(s0)):
    ctx.fail('%s does not start counting at 0 in 32 bits' % name)
  # Warm accumulators, as after earlier updates.
  _, s1 = step(gs[0][2], s0, p)
  m1 = model.update(gs[0][1], model.init(t.vals(9, 0.8)), t.vals(9, 0.8))[1] if model else None
  for n in ns:
    for hist in itertools.product(range(len(gs)), repeat=steps):
      s = set_counts(s1, n)
      mm = m.set_counts(m1, n) if model else None
      for i, j in enumerate(hist):
        u, s = step(gs[j][2], s, p)
        ctx.transitions += 1
        got = [val(c) for c in counts_in(s)]
        e = min(n + i + 1, MAX)
        if got != [e] * k:
          ctx.fail('%s: after %d updates from count %d the counters are %s, expected %d' % (name, i + 1, n, got, e))
        ul = leaves_of(u)
        if not all(np.isfinite(x).all() for x in ul):
          ctx.fail('%s: non-finite update at count %d' % (name, n + i))
        if model:
          um, mm = model.update(gs[j][1], mm, t.vals(9, 0.8))
          if not close(ul, um, rtol, 1e-12):
            ctx.fail('%s: update at count %d differs from the formula: %s' % (name, n + i, worst(ul, um)))
      ctx.traces += 1
    ctx.states += 1
    ctx.outcomes.add((name, n))
  ctx.sample({'transformation': name, 'counts': list(ns)[-6:], 'steps': steps})


def exact(ctx, name, steps, mode='jit'):
  """Counting from the start, update by update."""
  make, _ = COUNTING[name]
  t = Tree('scalar')
  tx = make()
  p = t.build(t.vals(9))
  step = jax.jit(tx.update)
  s = tx.init(p)
  gs = [t.build(g) for _, g in grads(t, 'azb')]
  for n in range(steps):
    u, s = step(gs[n % 3], s, p)
    ctx.transitions += 1
    if any(val(c) != n + 1 for c in counts_in(s)):
      ctx.fail('%s reports %s after %d updates' % (name, [val(c) for c in counts_in(s)], n + 1))
  ctx.states += steps
  ctx.traces += 1


def increment(ctx):
  """The saturating increment, at every boundary value, compiled or not."""
  f = numerics.safe_int32_increment
  j = jax.jit(f)
  ns = sorted(set(pow2_counts()) | set(range(0, 5000)) | set(range(MAX - 300, MAX + 1)) | {-1, -5, -2**31})
  batch = jax.vmap(f)(jnp.asarray(ns, jnp.int32))
  if batch.dtype != jnp.int32:
    ctx.fail('the increment returns %s' % batch.dtype)
  for n, b in zip(ns, np.asarray(batch).tolist()):
    e = min(n + 1, MAX)
    ctx.transitions += 1
    if b != e:
      ctx.fail('safe_int32_increment(%d) = %d' % (n, b))
  for n in ns[::97] + ns[-3:]:
    for g in (f, j):
      if int(g(jnp.asarray(n, jnp.int32))) != min(n + 1, MAX):
        ctx.fail('safe_int32_increment(%d) = %s' % (n, g(jnp.asarray(n, jnp.int32))))
  ctx.states += len(ns)
  ctx.traces += 1


def UNITS(tier):
  T = tier == 'thorough'
  u = [('increment', increment, {}), ('increment32', increment, dict(x64=False))]
  top = [MAX - 3, MAX - 2, MAX - 1, MAX]
  for name in COUNTING:
    u.append(('top-' + name, count, dict(name=name, ns=top, steps=4 if T else 3, letters='abz')))
    u.append(('pow2-' + name, count, dict(name=name, ns=pow2_counts(), steps=2)))
    u.append(('top32-' + name, count, dict(name=name, ns=top + [0, 1, 1000], steps=3, x64=False, rtol=1e-2)))
    u.append(('eager-' + name, count, dict(name=name, ns=top[1:], steps=2, letters='a', mode='eager')))
    u.append(('exact-' + name, exact, dict(name=name, steps=5000 if T else 300)))
  return u
