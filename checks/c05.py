"""C05: trace, ema and sgd follow their recurrences."""
import itertools

import jax
import numpy as np
import optax
import jax.numpy as jnp

from mc import models as m
from mc.std import deep, wide, long
from mc.trees import LARGE, Tree, grads, ALL

ASSUMPTIONS = ['gradient values outside the alphabet behave like those in it',
               'double precision reference within rtol 1e-9']


def accum(ctx, kind, acc, nest_or_debias):
  """With an accumulator dtype the state keeps it and the values follow it."""
  t = Tree('dict')
  dt = jnp.dtype(acc)
  for decay in (0., 0.5, 0.9):
    tx = (optax.trace(decay, nest_or_debias, accumulator_dtype=acc) if kind == 'trace'
          else optax.ema(decay, nest_or_debias, accumulator_dtype=acc))
    gs = grads(t, 'zab')
    for h in itertools.product(range(3), repeat=4):
      s = tx.init(t.build(t.zeros(), jnp.float32))
      ref = [np.zeros(x) for x in t.shapes]
      for n, i in enumerate(h, 1):
        u, s = tx.update(t.build(gs[i][1], jnp.float32), s)
        g = gs[i][1]
        acc_leaves = (s.trace if kind == 'trace' else s.ema)
        al = jax.tree_util.tree_leaves(acc_leaves)
        if any(a.dtype != dt for a in al):
          ctx.fail('accumulator dtype is %s, not %s' % ([str(a.dtype) for a in al], acc),
                   history=h, decay=decay)
        if kind == 'trace':
          new = [a + decay * b for a, b in zip(g, ref)]
          exp = [a + decay * b for a, b in zip(g, new)] if nest_or_debias else new
        else:
          new = [(1 - decay) * a + decay * b for a, b in zip(g, ref)]
          exp = [b / (1 - decay**n) for b in new] if nest_or_debias else new
        for e, old, got in zip(exp, ref, jax.tree_util.tree_leaves(u)):
          # only what comes from the stored accumulator may be rounded
          tol = 3e-6 * (1 + np.abs(e))
          if dt.itemsize < 4:
            gain = 2. if kind == 'trace' else 1 / (1 - decay**n)
            tol = tol + 2.**-7 * gain * np.abs(old)
          if not (np.abs(np.asarray(got, np.float64) - e) <= tol).all():
            ctx.fail('%s accumulator: update %d differs' % (acc, n), history=h, decay=decay,
                     got=got, expected=e)
        # follow the stored (rounded) accumulator
        ref = [np.asarray(a.astype(jnp.float32), np.float64) for a in al]
        for a, b in zip(ref, new):
          tol = 3e-6 if dt.itemsize >= 4 else 0.02
          if not np.allclose(a, b, rtol=tol, atol=tol):
            ctx.fail('%s accumulator holds other values' % acc, history=h)
        ctx.transitions += 1
      ctx.states += 4
      ctx.traces += 1
      ctx.outcomes.add((kind, acc, h))


EPS = {'float64': 1e-9, 'float32': 3e-6, 'float16': 2.**-8, 'bfloat16': 2.**-5}


def mixed(ctx, kind, dtypes, flag, depth=4, word='zabL'):
  """Leaves of several dtypes: each is accumulated in its own."""
  t = Tree('many')
  dts = [jnp.dtype(dtypes[i % len(dtypes)]) for i in range(len(t.shapes))]
  build = lambda g: jax.tree_util.tree_unflatten(t.treedef, [jnp.asarray(x, d) for x, d in zip(g, dts)])
  leaves = jax.tree_util.tree_leaves
  gs = [build(g) for _, g in grads(t, word)]
  for decay in (0., 0.3, 0.9):
    tx = optax.trace(decay, flag) if kind == 'trace' else optax.ema(decay, flag)
    step = jax.jit(tx.update)
    stack = [((), tx.init(build(t.zeros())), [np.zeros(x) for x in t.shapes])]
    while stack:
      h, s, old = stack.pop()
      for i, g in enumerate(gs):
        u, s1 = step(g, s)
        gl = [np.asarray(x.astype(jnp.float64)) for x in leaves(g)]
        n = len(h) + 1
        if kind == 'trace':
          new = [a + decay * b for a, b in zip(gl, old)]
          exp = [a + decay * b for a, b in zip(gl, new)] if flag else new
        else:
          new = [(1 - decay) * a + decay * b for a, b in zip(gl, old)]
          exp = [b / (1 - decay**n) for b in new] if flag else new
        acc = leaves(s1.trace if kind == 'trace' else s1.ema)
        for d, xs, es in [('accumulator', acc, new), ('update', leaves(u), exp)]:
          for j, (x, e, dt) in enumerate(zip(xs, es, dts)):
            if x.dtype != dt:
              ctx.fail('%s: the %s of a leaf of type %s has type %s after %d updates' % (kind, d, dt, x.dtype, n), history=h + (i,))
            mag = np.abs(e) + np.abs(old[j]) + np.abs(gl[j]) + 1e-3
            if not (np.abs(np.asarray(x.astype(jnp.float64)) - e) <= EPS[dt.name] * 3 * mag).all():
              ctx.fail('%s: the %s of a leaf of type %s is not that of its own history' % (kind, d, dt), history=h + (i,),
                       decay=decay, got=x, expected=e)
        ctx.transitions += 1
        if n < depth:
          ctx.states += 1
          stack.append((h + (i,), s1, [np.asarray(x.astype(jnp.float64)) for x in acc]))
        else:
          ctx.traces += 1
    ctx.outcomes.add((kind, decay))
  ctx.sample({'dtypes': list(dtypes), 'kind': kind, 'depth': depth})


def UNITS(tier):
  T = tier == 'thorough'
  u = []
  d = 7 if T else 6
  for decay in (0., 0.3, 0.9, 1.0):
    for nest in (False, True):
      u.append(('trace-%s-%s' % (decay, nest), deep, dict(
          make=lambda decay=decay, nest=nest: optax.trace(decay, nest),
          model=m.Trace(decay, nest), tree='dict', letters='zabLs', depth=d - (decay in (0., 1.)),
          label='trace(%s,%s)' % (decay, nest))))
  for decay in (0., 0.3, 0.9, 0.999):
    for deb in (False, True):
      u.append(('ema-%s-%s' % (decay, deb), deep, dict(
          make=lambda decay=decay, deb=deb: optax.ema(decay, deb),
          model=m.Ema(decay, deb), tree='dict', letters='zabLs', depth=d - (decay == 0.),
          label='ema(%s,%s)' % (decay, deb))))
  for mom in (None, 0., 0.9):
    for nest in (False, True):
      for name, rate in (('c', 0.1), ('s', lambda n: 0.1 / (1. + n))):
        u.append(('sgd-%s-%s-%s' % (mom, nest, name), deep, dict(
            make=lambda mom=mom, nest=nest, rate=rate: optax.sgd(rate, mom, nest),
            model=m.sgd(rate, mom, nest), tree='dict', letters='zabL', depth=d - 1,
            label='sgd(%s,%s,%s)' % (name, mom, nest))))
  wide_cases = []
  for decay in (0., 0.1, 0.5, 0.75, 0.95, 0.99, 1.0):
    for flag in (False, True):
      wide_cases.append(('trace(%s,%s)' % (decay, flag),
                         lambda decay=decay, flag=flag: optax.trace(decay, flag),
                         m.Trace(decay, flag)))
      if decay < 1:
        wide_cases.append(('ema(%s,%s)' % (decay, flag),
                           lambda decay=decay, flag=flag: optax.ema(decay, flag),
                           m.Ema(decay, flag)))
  for rate in (0., 0.5, -0.1, 1.0):
    for mom in (None, 0., 0.5, 1.0):
      for nest in (False, True):
        wide_cases.append(('sgd(%s,%s,%s)' % (rate, mom, nest),
                           lambda rate=rate, mom=mom, nest=nest: optax.sgd(rate, mom, nest),
                           m.sgd(rate, mom, nest)))
  for tree in ALL:
    u.append(('wide-' + tree, wide, dict(cases=wide_cases, tree=tree, letters='ab',
                                         depth=3 if T else 2)))
  for label, make, model in (
      ('trace.9', lambda: optax.trace(0.9), m.Trace(0.9)),
      ('trace.9n', lambda: optax.trace(0.9, True), m.Trace(0.9, True)),
      ('ema.9', lambda: optax.ema(0.9), m.Ema(0.9)),
      ('ema.999', lambda: optax.ema(0.999), m.Ema(0.999)),
      ('ema.9nd', lambda: optax.ema(0.9, False), m.Ema(0.9, False)),
      ('sgd.9', lambda: optax.sgd(0.1, 0.9), m.sgd(0.1, 0.9))):
    u.append(('long-' + label, long, dict(make=make, model=model, tree='scalar',
                                          steps=8000 if T else 1500, label=label)))
  for kind in ('trace', 'ema'):
    for acc in ('float32', 'bfloat16'):
      for flag in (False, True):
        u.append(('accum-%s-%s-%s' % (kind, acc, flag), accum,
                  dict(kind=kind, acc=acc, nest_or_debias=flag, x64=False)))
  for kind in ('trace', 'ema'):
    for flag in (False, True):
      for i, dts in enumerate((('float64', 'float32'), ('float32', 'float64', 'float16'), ('float32', 'bfloat16'),
                               ('bfloat16', 'float16', 'float32', 'float64'))):
        u.append(('mixed-%s-%s-%d' % (kind, flag, i), mixed, dict(kind=kind, flag=flag, dtypes=dts, depth=5 if T else 3)))
  for tree in LARGE:
    u.append(('wide-' + tree, wide, dict(cases=wide_cases[::3], tree=tree, letters='ab', depth=2, mode='jit')))
  return u
