"""C17: apply_every emits window sums every k steps and zeros otherwise."""
import jax
import jax.numpy as jnp
import optax

from mc import models as m
from mc.explore import Spec, explore, lasso, set_counts
from mc.std import pow2_counts
from mc.trees import LARGE, ALL, Tree, grads, leaves_of, close, worst

ASSUMPTIONS = ['gradient values outside the alphabet behave like those in it']

WRAP = {
    'alone': (lambda k: optax.apply_every(k), lambda k: m.ApplyEvery(k)),
    'adam': (lambda k: optax.chain(optax.scale_by_adam(0.5, 0.9), optax.apply_every(k), optax.scale(-0.1)),
             lambda k: m.Chain(m.Adam(0.5, 0.9), m.ApplyEvery(k), m.Scale(-0.1))),
    'then': (lambda k: optax.chain(optax.apply_every(k), optax.trace(0.5, False)),
             lambda k: m.Chain(m.ApplyEvery(k), m.Trace(0.5))),
    'twice': (lambda k: optax.chain(optax.apply_every(k), optax.apply_every(2)),
              lambda k: m.Chain(m.ApplyEvery(k), m.ApplyEvery(2))),
}


def histories(ctx, wrap, k, tree, letters, depth, mode='jit', **kw):
  t = Tree(tree)
  a, b = WRAP[wrap]
  explore(ctx, Spec(a(k), b(k), t, mode=mode, label='%s(%d)' % (wrap, k), **kw),
          grads(t, letters), depth)


def long(ctx, wrap, k, cycles, steps, **kw):
  t = Tree('dict')
  g = dict(grads(t, 'abczpmLsNI'))
  a, b = WRAP[wrap]
  for cyc in cycles:
    lasso(ctx, Spec(a(k), b(k), t, label='%s(%d)' % (wrap, k), atol=1e-9, **kw), [],
          [(x, g[x]) for x in cyc], steps)


def window(ctx, starts, depth=4):
  """Long windows near their end."""
  t = Tree('pair')
  for n in starts:
    for k in (n + 1, n + 3):
      sp = Spec(optax.apply_every(k), m.ApplyEvery(k), t, label='apply_every(%d)' % k)
      acc = t.vals(5)
      sp.start = lambda s, mm: (s._replace(count=jnp.asarray(n, s.count.dtype), grad_acc=t.build(acc)),
                                {**mm, 'i': n, 'acc': [x.copy() for x in acc]})
      explore(ctx, sp, grads(t, 'abN'), depth)


def late(ctx, k):
  """The law after 2^31 and more updates.

  If the counter in the state is periodic, the reachable states are exhausted by
  the short histories.  If it counts all updates, the state after n updates has
  count min(n, 2^31-1) (a 32-bit counter saturates, see C26), so the law is
  followed from there.
  """
  t = Tree('pair')
  g = dict(grads(t, 'abc'))
  tx = optax.apply_every(k)
  step = jax.jit(tx.update)
  s, mm = tx.init(t.build(t.vals(9))), m.ApplyEvery(k).init(t.vals(9))
  seen, states = [], []
  for i in range(6 * k + 6):
    states.append((s, mm))
    x = g['abc'[i % 3]]
    _, s = step(t.build(x), s)
    _, mm = m.ApplyEvery(k).update(x, mm)
    seen.append(int(getattr(s, 'count', 0)))
    ctx.states += 1
  ctx.traces += 1
  if all(seen[i] == seen[i + k] for i in range(len(seen) - k)):
    ctx.sample('apply_every(%d): the counter has period %d' % (k, k))
    return
  if seen != list(range(1, len(seen) + 1)):
    ctx.fail('apply_every(%d): the counter is neither periodic nor the number of updates: %s' % (k, seen))
  top = 2**31 - 1
  for n in sorted(set(pow2_counts(8)) | set(range(top - 3 * k, top + 1))):
    s, mm = states[k + n % k]
    s = set_counts(s, n)
    for i in range(2 * k + 2):
      x = g['abc'[(k + n % k + i) % 3]]
      u, s = step(t.build(x), s)
      um, mm = m.ApplyEvery(k).update(x, mm)
      ctx.transitions += 1
      if not close(leaves_of(u), um, 1e-9, 1e-12):
        ctx.fail('apply_every(%d): update %d is not the window sum: %s' % (k, n + i + 1, worst(leaves_of(u), um)))


def UNITS(tier):
  T = tier == 'thorough'
  u = []
  for k in (1, 2, 3, 4, 5, 6, 7):
    u.append(('late-%d' % k, late, dict(k=k)))
  for k in (1, 2, 3, 4):
    for w in WRAP:
      u.append(('hist-%s-%d' % (w, k), histories, dict(
          wrap=w, k=k, tree='dict', letters='abz', depth=9 if T else 7)))
    # A non-finite update affects the emission of its own window only.
    for letters in ('aNI', 'aMJ'):
      u.append(('bad-%s-%d' % (letters, k), histories, dict(
          wrap='alone', k=k, tree='pair', letters=letters, depth=9 if T else 7)))
    u.append(('eager-%d' % k, histories, dict(
        wrap='alone', k=k, tree='nest', letters='ab', depth=6, mode='eager')))
    u.append(('noparams-%d' % k, histories, dict(
        wrap='alone', k=k, tree='nest', letters='ab', depth=6, mode='noparams')))
    u.append(('x32-%d' % k, histories, dict(
        wrap='alone', k=k, tree='dict', letters='abN', depth=6, rtol=1e-5, atol=1e-5, x64=False)))
  for k in (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 31, 100):
    for w in ('alone', 'adam'):
      u.append(('long-%s-%d' % (w, k), long, dict(
          wrap=w, k=k, cycles=('abczpms', 'ab', 'aL') + (('abcN',) if w == 'alone' else ()),
          steps=(10 if T else 4) * k + 3)))
  for tree in ALL:
    u.append(('tree-' + tree, histories, dict(wrap='alone', k=3, tree=tree, letters='abN', depth=7 if T else 5)))
  for tree in LARGE:
    u.append(('tree-' + tree, histories, dict(wrap='alone', k=3, tree=tree, letters='ab', depth=4)))
  u.append(('window', window, dict(starts=sorted({2**k + d for k in (range(3, 31) if T else (7, 8, 15, 16, 24, 30)) for d in (-2, -1)}))))
  return u
