"""C23: scheduled step sizes use the schedule at the number of past updates."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc import custom
from mc import models as m
from mc.explore import Spec, explore, lasso, set_counts
from mc.std import actions_for, pow2_counts
from checks.c22 import SPIKES, spikes
from mc.trees import LARGE, ALL, Tree, grads, close, leaves_of, worst

ASSUMPTIONS = ['schedules outside the list behave like those in it',
               'gradient values outside the alphabet behave like those in it']

# A value that identifies the step it belongs to.
VALUES = [0.37, -1.21, 2.03, 0.11, 0.93, -0.5, 1.7, 0.05, 3.1, 0.77, 1.03, -2.2]


def tab(n):
  arr = jnp.asarray(VALUES)
  return arr[jnp.minimum(n, len(VALUES) - 1)]


def tabm(n):
  return VALUES[min(n, len(VALUES) - 1)]


SCHEDS = {
    'table': (lambda: tab, tabm),
    'harmonic': (lambda: lambda n: 0.1 / (1. + n), lambda n: 0.1 / (1. + n)),
    'const': (lambda: optax.constant_schedule(0.3), lambda n: 0.3),
    'piecewise': (lambda: optax.piecewise_constant_schedule(1., {2: 0.5, 3: 0.2}),
                  lambda n: 1. if n < 2 else 0.5 if n < 3 else 0.1),
    'linear': (lambda: optax.linear_schedule(1., 0.2, 4), lambda n: 1. - 0.2 * min(n, 4)),
    'zero': (lambda: lambda n: jnp.where(n == 0, 0., 1.), lambda n: 0. if n == 0 else 1.),
}

# Optimisers whose last operation is the learning rate.
LAST = {
    'sgd': lambda lr: optax.sgd(lr), 'sgd_momentum': lambda lr: optax.sgd(lr, 0.9),
    'sgd_nesterov': lambda lr: optax.sgd(lr, 0.9, True), 'adam': lambda lr: optax.adam(lr),
    'adamw': lambda lr: optax.adamw(lr, weight_decay=0.1), 'adabelief': lambda lr: optax.adabelief(lr),
    'adagrad': lambda lr: optax.adagrad(lr), 'lamb': lambda lr: optax.lamb(lr, weight_decay=0.1),
    'radam': lambda lr: optax.radam(lr), 'yogi': lambda lr: optax.yogi(lr), 'rmsprop': lambda lr: optax.rmsprop(lr),
    'rmsprop_centered': lambda lr: optax.rmsprop(lr, centered=True), 'noisy_sgd': lambda lr: optax.noisy_sgd(lr, 0.1, 0.5, 3),
}
MOM = {
    'rmsprop_momentum': (lambda lr: optax.rmsprop(lr, momentum=0.9), lambda lr: m.rmsprop(lr, momentum=0.9)),
    'rmsprop_nesterov': (lambda lr: optax.rmsprop(lr, 0.5, 1e-3, 0.1, True, 0.5, True),
                         lambda lr: m.rmsprop(lr, 0.5, 1e-3, 0.1, True, 0.5, True)),
}


def alias(ctx, name, sched, tree, letters, depth, ns=(0,), mode='jit', rtol=1e-9, atol=1e-12):
  """Against the same optimiser with learning rate 1, at every history."""
  t = Tree(tree)
  real, model = SCHEDS[sched][0](), SCHEDS[sched][1]
  tx, one = LAST[name](real), LAST[name](1.0)
  f, f1 = (jax.jit(tx.update), jax.jit(one.update)) if mode == 'jit' else (tx.update, one.update)
  p = t.build(t.vals(9, 0.8))
  gs = [(x, t.build(g)) for x, g in grads(t, letters)]
  for n0 in ns:
    stack = [(set_counts(tx.init(p), n0), set_counts(one.init(p), n0), ())]
    while stack:
      s, s1, hist = stack.pop()
      ctx.states += 1
      n = min(n0 + len(hist), 2**31 - 1)
      for x, g in gs:
        u, t2 = f(g, s, p)
        v, v2 = f1(g, s1, p)
        ctx.transitions += 1
        e = [l * model(n) for l in leaves_of(v)]
        if not close(leaves_of(u), e, rtol, atol):
          ctx.fail('%s with schedule %s: update number %d is not scaled by the schedule at %d: %s' % (
              name, sched, n, n, worst(leaves_of(u), e)), history=hist + (x,), start=n0)
        if len(hist) + 1 < depth:
          stack.append((t2, v2, hist + (x,)))
        else:
          ctx.traces += 1
    ctx.outcomes.add((name, sched, n0))
  ctx.sample({'optimiser': name, 'schedule': sched, 'starts': list(ns)[:6], 'depth': depth})


def by_schedule(ctx, sched, tree, letters, depth, mode='jit', ns=(0,), **kw):
  if sched == 'linear':
    kw.update(rtol=1e-6, atol=1e-6)
  t = Tree(tree)
  real, model = SCHEDS[sched][0](), SCHEDS[sched][1]
  tx = optax.scale_by_schedule(real)
  for n in ns:
    sp = Spec(tx, m.BySchedule(model), t, mode=mode, label='by_schedule %s@%d' % (sched, n),
              start=lambda s, mm: (set_counts(s, n), m.set_counts(mm, n)), **kw)
    explore(ctx, sp, grads(t, letters), depth)


def momentum(ctx, name, sched, depth):
  t = Tree('dict')
  real, model = SCHEDS[sched][0](), SCHEDS[sched][1]
  a, b = MOM[name]
  explore(ctx, Spec(a(real), b(model), t, label='%s %s' % (name, sched), rtol=1e-6, atol=1e-7), grads(t, 'abz'), depth)


def constant(ctx, name):
  """A constant schedule and the constant give the same updates."""
  t = Tree('dict')
  make = LAST[name] if name in LAST else MOM[name][0]
  for c in (0.1, 1., 3e-4):
    a, b = make(optax.constant_schedule(c)), make(c)
    fa, fb = jax.jit(a.update), jax.jit(b.update)
    p = t.build(t.vals(9, 0.8))
    for hist in itertools.product('abz', repeat=4):
      gs = dict(grads(t, 'abz'))
      sa, sb = a.init(p), b.init(p)
      for x in hist:
        ua, sa = fa(t.build(gs[x]), sa, p)
        ub, sb = fb(t.build(gs[x]), sb, p)
        ctx.transitions += 1
        if not close(leaves_of(ua), leaves_of(ub), 1e-12, 1e-15):
          ctx.fail('%s: constant schedule %g differs from the constant' % (name, c), history=hist)
      ctx.traces += 1
  ctx.states += 1


def dtypes(ctx):
  """The step size is cast to the dtype of each leaf."""
  t = Tree('pair')
  for dts in itertools.product(('float32', 'bfloat16', 'float16'), repeat=2):
    for sched in SCHEDS:
      tx = optax.scale_by_schedule(SCHEDS[sched][0]())
      g = t.build(t.vals(1), list(dts))
      s = tx.init(g)
      for n in range(5):
        u, s = tx.update(g, s)
        ctx.transitions += 1
        for a, b in zip(jax.tree_util.tree_leaves(u), jax.tree_util.tree_leaves(g)):
          c = np.asarray(jnp.asarray(SCHEDS[sched][1](n), b.dtype).astype('float32'))
          e = np.asarray((jnp.asarray(c, b.dtype) * b).astype('float32'))
          if a.dtype != b.dtype or not np.allclose(np.asarray(a.astype('float32')), e, rtol=1e-2 if b.dtype != 'float32' else 1e-6):
            ctx.fail('schedule %s at %d on %s: %s, expected %s' % (sched, n, dts, a, e))
      ctx.states += 1
      ctx.traces += 1


def in_wrappers(ctx):
  """Inside wrappers the count is that of the updates actually done."""
  t = Tree('pair')
  g = dict(grads(t, 'abN'))
  systems = [
      (optax.apply_if_finite(optax.sgd(tab), 2), m.IfFinite(m.sgd(tabm), 2), 'abN'),
      (optax.MultiSteps(optax.sgd(tab), 2).gradient_transformation(), m.MultiSteps(m.sgd(tabm), 2), 'ab'),
      (optax.masked(optax.sgd(tab), (True, False)), m.Masked(m.sgd(tabm), [True, False]), 'ab'),
      (optax.flatten(optax.sgd(tab)), m.Flatten(m.sgd(tabm)), 'ab'),
      (optax.chain(optax.scale_by_schedule(tab), optax.scale_by_schedule(tab)),
       m.Chain(m.BySchedule(tabm), m.BySchedule(tabm)), 'ab'),
      (optax.chain(optax.apply_every(2), optax.sgd(tab)), m.Chain(m.ApplyEvery(2), m.sgd(tabm)), 'ab'),
  ]
  for tx, mod, letters in systems:
    explore(ctx, Spec(tx, mod, t, label='wrapped schedule'), [(x, g[x]) for x in letters], 6)


def callables(ctx):
  """A schedule may be any callable: partial, object, method, jitted function."""
  for name in LAST:
    custom.same_in_every_form(ctx, name, lambda n: 0.1 / (1. + n), LAST[name])
  custom.same_in_every_form(ctx, 'scale_by_schedule', lambda n: 0.1 / (1. + n), optax.scale_by_schedule)


def UNITS(tier):
  T = tier == 'thorough'
  u = [('dtypes', dtypes, dict(x64=False)), ('wrappers', in_wrappers, {})]
  u.append(('callables', callables, {}))
  for kind in ('schedule', 'sgd'):
    for i in range(2):
      u.append(('spikes-%s-%d' % (kind, i), spikes, dict(kind=kind, at=SPIKES[i::2])))
  late = [1, 2, 3, 5, 11, 12, 1000, 2**24 + 1, 2**31 - 3, 2**31 - 2, 2**31 - 1]
  for name in LAST:
    for sched in ('table', 'harmonic') if not T else SCHEDS:
      u.append(('alias-%s-%s' % (name, sched), alias, dict(name=name, sched=sched, tree='dict', letters='az', depth=7 if T else 5)))
      if name != 'noisy_sgd':
        u.append(('late-%s-%s' % (name, sched), alias, dict(name=name, sched=sched, tree='scalar', letters='a', depth=3, ns=late)))
    u.append(('eager-' + name, alias, dict(name=name, sched='table', tree='pair', letters='a', depth=4, mode='eager')))
    u.append(('x32-' + name, alias, dict(name=name, sched='table', tree='pair', letters='ab', depth=4, rtol=1e-4, atol=1e-6, x64=False)))
    u.append(('constant-' + name, constant, dict(name=name)))
  for name in MOM:
    u.append(('constant-' + name, constant, dict(name=name)))
    for sched in SCHEDS:
      u.append(('mom-%s-%s' % (name, sched), momentum, dict(name=name, sched=sched, depth=6 if T else 5)))
  for sched in SCHEDS:
    u.append(('by-' + sched, by_schedule, dict(sched=sched, tree='dict', letters='abzL', depth=7 if T else 6)))
    u.append(('by-late-' + sched, by_schedule, dict(sched=sched, tree='scalar', letters='a', depth=2, ns=pow2_counts(), mode='eager' if T else 'jit')))
    u.append(('by-eager-' + sched, by_schedule, dict(sched=sched, tree='nest', letters='ab', depth=4, mode='eager')))
  for tree in ALL:
    u.append(('tree-' + tree, by_schedule, dict(sched='table', tree=tree, letters='ab', depth=5)))
  for tree in LARGE:
    u.append(('tree-' + tree, by_schedule, dict(sched='table', tree=tree, letters='ab', depth=3)))
  return u
