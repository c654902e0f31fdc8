"""C16: MultiSteps accumulates k gradients and then takes one wrapped step."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc import custom
from mc import models as m
from mc.explore import Spec, explore, lasso
from mc.trees import LARGE, ALL, Tree, grads
from mc.wrap import inners, real, same, val

ASSUMPTIONS = ['gradient values outside the alphabet behave like those in it',
               'schedules of k longer than the enumerated tables behave like them']


def view_for(ms):
  has = ms.has_updated

  def view(s, mm):
    got = (val(s.mini_step), val(s.gradient_step), bool(val(has(s))))
    exp = (mm['mini'], mm['big'], mm['mini'] == 0 and mm['big'] > 0)
    if got != exp:
      return 'reported (mini step, gradient step, has updated) = %s, expected %s' % (got, exp)
    if 'real' in mm['inner'] and not same(s.inner_opt_state, mm['inner']):
      return 'the wrapped state is not that of the large steps done'
  return view


def table(ks):
  arr = jnp.asarray(ks)
  return (lambda n: arr[jnp.minimum(n, len(ks) - 1)]), (lambda n: ks[min(n, len(ks) - 1)])


def system(inner, k, mean, tree, against='real', mode='jit', direct=False, dtype=None, **kw):
  label, make, model = inner
  t = Tree(tree)
  if isinstance(k, tuple):
    kr, km = table(k)
  else:
    kr = km = k
  ms = optax.MultiSteps(make(), kr, use_grad_mean=mean)
  tx = ms if direct else ms.gradient_transformation()
  inner_model = real(label, dtype) if against == 'real' else model
  return Spec(tx, m.MultiSteps(inner_model, km, mean), t, mode=mode, view=view_for(ms),
              dtype=dtype, label='multi(%s,k=%s,mean=%s)' % (label, k, mean), **kw)


def histories(ctx, cases, letters, depth, closed=False, **kw):
  for inner, k, mean in cases:
    sp = system(inner, k, mean, **kw)
    explore(ctx, sp, grads(sp.tree, letters), depth, closed=closed)


def counters(tier):
  return sorted({2**k + d for k in (range(3, 31) if tier else (7, 8, 15, 16, 24, 30)) for d in (-2, -1)})


def late(ctx, inner, starts, mean, depth=5):
  """Long accumulations near their end, and schedules of k that change after many large steps."""
  label = inner[0]
  for n in starts:
    # n of n + 3 gradients are in already
    for k in (n + 3, n + 1):
      sp = system(inner, k, mean, 'pair', mode='jit', rtol=1e-5, atol=1e-6)
      acc = [x * (n % 7 + 1.) for x in sp.tree.vals(5)]
      sp.start = lambda s, mm: (s._replace(mini_step=jnp.asarray(n, s.mini_step.dtype), acc_grads=sp.tree.build(acc)),
                                {**mm, 'mini': n, 'acc': [x.copy() for x in acc]})
      explore(ctx, sp, grads(sp.tree, 'ab'), 4)
    # the (n+1)-th large step is a long one
    t = Tree('pair')
    km = lambda b: 3 if b == n + 1 else 1
    ms = optax.MultiSteps(inner[1](), lambda b: jnp.where(b == n + 1, 3, 1), use_grad_mean=mean)
    sp = Spec(ms.gradient_transformation(), m.MultiSteps(real(label), km, mean), t, view=view_for(ms), rtol=1e-5, atol=1e-6,
              label='multi(%s, long step after %d)' % (label, n))
    sp.start = lambda s, mm: (s._replace(gradient_step=jnp.asarray(n, s.gradient_step.dtype)), {**mm, 'big': n})
    explore(ctx, sp, grads(t, 'ab'), depth)


def shorter(ctx, inner, mean, most=5):
  """A run saved after any number of mini-steps and continued with another k: the next call that has k gradients is a large step."""
  for done in range(most):
    for k in range(1, most + 1):
      sp = system(inner, k, mean, 'pair')
      first = system(inner, most + 1, mean, 'pair')
      g = dict(grads(sp.tree, 'abc'))
      s, mm, _ = first.initial()
      for i in range(done):
        x = 'abc'[i % 3]
        _, s = first.call(first.g(x, g[x]), s, first.build_params(first.params))
        _, mm = first.model.update(g[x], mm, first.params)
      sp.start = lambda *_: (s, mm)
      explore(ctx, sp, grads(sp.tree, 'ab'), 4)


def windows(ctx, inner, ks, mean, cycles, closed=True, **kw):
  """Distinct gradients at every step, for every table of k."""
  for k in ks:
    sp = system(inner, k, mean, 'dict', **kw)
    g = dict(grads(sp.tree, 'abczpmLsN'))
    steps = sum(k) + 3 * k[-1] if isinstance(k, tuple) else 4 * k + 1
    for cyc in cycles:
      lasso(ctx, sp, [], [(x, g[x]) for x in cyc], steps, closed=closed)


def callables(ctx):
  """The schedule of k may be any callable."""
  for mean in (True, False):
    for f in (lambda n: 2, lambda n: 1 + n % 2, lambda n: jnp.where(n < 1, 1, 2)):
      custom.same_in_every_form(ctx, 'MultiSteps', f, lambda k: optax.MultiSteps(
          optax.trace(0.5, False), k, use_grad_mean=mean).gradient_transformation(), steps=6)


def UNITS(tier):
  T = tier == 'thorough'
  u = []
  u.append(('callables', callables, {}))
  for inner in inners():
    for mean in (True, False):
      n = '%s-%s' % (inner[0], 'mean' if mean else 'sum')
      u.append(('model-' + n, histories, dict(
          cases=[(inner, k, mean) for k in (1, 2, 3)], letters='ab', depth=9 if T else 6,
          tree='dict', against='model', closed=not T)))
      u.append(('real-' + n, histories, dict(
          cases=[(inner, k, mean) for k in ((2, 1, 3), 2, 4)], letters='az', depth=9 if T else 7,
          tree='nest')))
  tables = list(itertools.product((1, 2, 3), repeat=3))
  for i in range(4):
    for name in ('mom', 'adamw') if not T else ('mom', 'adamw', 'adam', 'lamb', 'every', 'clip', 'rms'):
      u.append(('tables-%s-%d' % (name, i), windows, dict(
          inner=inners(name)[0], ks=tables[i::4], mean=bool(i % 2), cycles=('abczpms',))))
  for k in (1, 2, 3, 4, 5, 7, 8, 16) + ((31, 64) if T else ()):
    u.append(('const-%d' % k, windows, dict(
        inner=inners('mom')[0], ks=[k], mean=True, cycles=('abc', 'abczpms', 'aL'))))
    u.append(('consts-%d' % k, windows, dict(
        inner=inners('adam')[0], ks=[k], mean=False, cycles=('abcz', 'bac'), direct=True)))
  # A non-finite mini-step stays within its own window (the wrapped transformation keeps no state).
  u.append(('nan', histories, dict(cases=[(inners('sgd')[0], k, b) for k in (1, 2, 3, (2, 3)) for b in (True, False)],
                                   letters='aNI', depth=7, tree='pair')))
  for tree in ALL:
    u.append(('tree-' + tree, histories, dict(
        cases=[(inners('mom')[0], (2, 3), True), (inners('adamw')[0], 2, False)], letters='ab',
        depth=7 if T else 5, tree=tree)))
  u.append(('eager', histories, dict(cases=[(i, (2, 1), True) for i in inners('mom', 'adamw', 'nest')],
                                     letters='ab', depth=4, tree='dict', mode='eager')))
  u.append(('eager-direct', histories, dict(cases=[(i, 2, True) for i in inners('mom', 'adam')],
                                            letters='ab', depth=4, tree='dict', mode='eager', direct=True)))
  u.append(('x32', histories, dict(cases=[(i, (1, 3), b) for i in inners('mom', 'adamw') for b in (True, False)],
                                   letters='ab', depth=6, tree='dict', rtol=1e-4, atol=1e-5,
                                   against='model', x64=False)))
  for mean in (True, False):
    for name in ('mom', 'adamw'):
      u.append(('late-%s-%s' % (name, mean), late, dict(inner=inners(name)[0], starts=counters(T), mean=mean)))
  # Sums only: what the mean of more than k gradients would be is not specified.
  for name in ('mom', 'adamw'):
    u.append(('shorter-' + name, shorter, dict(inner=inners(name)[0], mean=False, most=6 if T else 4)))
  for tree in LARGE:
    u.append(('tree-' + tree, histories, dict(cases=[(inners('mom')[0], (2, 3), True)], letters='ab', depth=5, tree=tree)))
  return u
