"""C20: maybe_update runs the wrapped transformation only when the predicate holds."""
import itertools

import jax
import jax.numpy as jnp
import optax

from mc import custom
from mc import models as m
from mc.explore import Spec, explore, lasso
from mc.trees import LARGE, ALL, Tree, close, grads, leaves_of
from mc.wrap import inners, real, same, val

ASSUMPTIONS = ['predicates outside the enumerated tables and thresholds behave like them']


def view(s, mm):
  if val(s.step) != mm['step']:
    return 'reported step %s, expected %s' % (val(s.step), mm['step'])
  if 'real' in mm['inner'] and not same(s.inner_state, mm['inner']):
    return 'the wrapped state is not that of the applied updates'


def table(bits):
  arr = jnp.asarray(bits)
  n = len(bits)
  return lambda s: arr[s % n], lambda s: bits[s % n]


def histories(ctx, inner, preds, tree, letters, depth, mode='jit', against='real', closed=False, **kw):
  label, make, model = inner
  t = Tree(tree)
  for name, pr, pm in preds:
    sp = Spec(optax.maybe_update(make(), pr),
              m.Maybe(real(label) if against == 'real' else model, pm), t, mode=mode, view=view,
              label='maybe(%s, %s)' % (label, name), **kw)
    explore(ctx, sp, grads(t, letters), depth, closed=closed)


def large(ctx, inner, starts, tree='dict', word='abz', steps=4):
  """Runs that continue from large call counters, with predicates that change around them."""
  label, make, _ = inner
  t = Tree(tree)
  ps = t.build(t.vals(9))
  gs = [t.build(g) for _, g in grads(t, word)]
  ref = make()
  step = jax.jit(ref.update)
  for n in starts:
    for name, pred in (('==0 mod 2', lambda s: s % 2 == 0), ('==1 mod 3', lambda s: s % 3 == 1),
                       ('>= %d' % (n + 2), lambda s: s >= n + 2), ('< %d' % (n + 1), lambda s: s < n + 1),
                       ('== %d' % (n + 1), lambda s: s == n + 1)):
      tx = optax.maybe_update(make(), pred)
      s = tx.init(ps)
      s = s._replace(step=jnp.asarray(n, s.step.dtype))
      r = ref.init(ps)
      f = jax.jit(tx.update)
      for k in range(steps):
        g = gs[k % len(gs)]
        u, s = f(g, s, ps)
        e = g
        if pred(n + k):
          e, r = step(g, r, ps)
        ctx.transitions += 1
        if val(s.step) != n + k + 1:
          ctx.fail('%s, %s: after call %d the counter is %s' % (label, name, n + k, val(s.step)))
        if not all(close(leaves_of(x), leaves_of(y), 1e-6, 1e-7) for x, y in ((u, e), (s.inner_state, r))):
          ctx.fail('%s, %s: call %d was not %s' % (label, name, n + k, 'applied' if pred(n + k) else 'skipped'))
      ctx.traces += 1
      ctx.states += steps
    ctx.outcomes.add(n)
  ctx.sample({'inner': label, 'counters': [int(n) for n in starts][-6:]})


def tables(n):
  return [('table' + ''.join('01'[b] for b in bits),) + table(bits)
          for bits in itertools.product((True, False), repeat=n)]


def rules():
  out = []
  for k in (1, 2, 3):
    for r in range(k):
      out.append(('%%%d==%d' % (k, r), lambda s, k=k, r=r: s % k == r, lambda s, k=k, r=r: s % k == r))
  for n in (0, 1, 2, 4):
    out.append(('>=%d' % n, lambda s, n=n: s >= n, lambda s, n=n: s >= n))
    out.append(('<%d' % n, lambda s, n=n: s < n, lambda s, n=n: s < n))
  return out


def callables(ctx):
  """The predicate may be any callable."""
  for f in (lambda n: n % 2 == 0, lambda n: jnp.logical_or(n == 1, n > 2), lambda n: True, lambda n: False):
    custom.same_in_every_form(ctx, 'maybe_update', f, lambda g: optax.maybe_update(optax.trace(0.5, False), g), steps=5)


def UNITS(tier):
  T = tier == 'thorough'
  u = [('callables', callables, {})]
  for inner in inners():
    n = inner[0]
    ts = tables(5 if T else 4)
    u.append(('tables-' + n, histories, dict(inner=inner, preds=ts if T else ts[::2], tree='scalar', letters='az',
                                             depth=6 if T else 5)))
    u.append(('rules-' + n, histories, dict(inner=inner, preds=rules() if T else rules()[::3], tree='dict',
                                            letters='ab', depth=6 if T else 5, against='model')))
  for inner in inners('mom', 'adamw', 'every'):
    n = inner[0]
    u.append(('all-' + n, histories, dict(inner=inner, preds=tables(5), tree='pair', letters='ab', depth=6)))
    u.append(('closed-' + n, histories, dict(inner=inner, preds=rules(), tree='dict', letters='ab', depth=6,
                                             closed=True)))
    u.append(('eager-' + n, histories, dict(inner=inner, preds=rules()[::3], tree='dict', letters='ab', depth=4,
                                            mode='eager')))
  u.append(('nan', histories, dict(inner=inners('sgd')[0], preds=tables(4), tree='pair', letters='aNI', depth=5)))
  u.append(('x32', histories, dict(inner=inners('mom')[0], preds=tables(3), tree='pair', letters='ab', depth=6,
                                   against='model', rtol=1e-5, atol=1e-5, x64=False)))
  big = sorted({2**k + d for k in (range(4, 40) if T else (7, 8, 12, 15, 16, 20, 23, 24, 28, 31, 32, 36)) for d in (-2, -1, 0)})
  for inner in inners('mom', 'adamw'):
    u.append(('large-' + inner[0], large, dict(inner=inner, starts=big)))
    u.append(('large32-' + inner[0], large, dict(inner=inner, starts=[n for n in big if n < 2**31 - 6] + [2**31 - 6], x64=False)))
  for tree in ALL:
    u.append(('tree-' + tree, histories, dict(inner=inners('mom')[0], preds=tables(3), tree=tree, letters='ab',
                                              depth=4)))
  for tree in LARGE:
    u.append(('tree-' + tree, histories, dict(inner=inners('mom')[0], preds=tables(2), tree=tree, letters='ab', depth=3)))
  return u
