"""C12: clipping bounds the update and leaves what is within bounds alone."""
import itertools
import math

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc import models as m
from mc.explore import Spec, explore, canon_sut
from mc.std import deep, wide
from mc.trees import LARGE, ALL, Tree, grads, close, leaves_of, worst

ASSUMPTIONS = ['gradient values outside the alphabet behave like those in it',
               'squares of gradient entries do not overflow']


def values(ctx, ds, vals, dtype, mode):
  """Every entry value against every bound, in one array and alone."""
  for d in ds:
    tx = optax.clip(d)
    step = jax.jit(tx.update) if mode == 'jit' else tx.update
    x = jnp.asarray(vals, dtype)
    xs = np.asarray(x).astype(np.float64)
    dd = float(np.asarray(jnp.asarray(d, x.dtype)).astype(np.float64))
    u, _ = step({'a': x, 'b': [x[0], x[::-1]]}, tx.init({'a': x, 'b': [x[0], x[::-1]]}))
    for got, inp in ((u['a'], xs), (u['b'][0], xs[0]), (u['b'][1], xs[::-1])):
      got = np.asarray(got).astype(np.float64)
      exp = np.minimum(np.maximum(inp, -dd), dd)
      ctx.transitions += inp.size
      if not (got == exp).all():
        ctx.fail('clip(%g) of %s gives %s' % (d, inp, got))
    ctx.states += 1
  ctx.traces += 1
  ctx.outcomes.add((dtype, mode, len(vals)))
  ctx.sample({'bounds': list(ds), 'values': list(vals), 'dtype': dtype})


def norms(ctx, tree, maxes, scales, mode, dtype=None, rtol=1e-9):
  """Every combination of leaf scales: unchanged below, scaled to the bound above."""
  t = Tree(tree)
  base = t.vals(1)
  for mx in maxes:
    tx = optax.clip_by_global_norm(mx)
    step = jax.jit(tx.update) if mode == 'jit' else tx.update
    for ss in itertools.product(scales, repeat=t.n):
      g = [x * s for x, s in zip(base, ss)]
      gt = t.build(g, dtype)
      g = leaves_of(gt)
      u, _ = step(gt, tx.init(gt))
      n = m.norm(g)
      ul = leaves_of(u)
      ctx.transitions += 1
      ctx.states += 1
      if n < mx * (1 - 10 * rtol):
        if canon_sut(u) != canon_sut(gt):
          ctx.fail('clip_by_global_norm(%g) changed gradients of norm %g' % (mx, n), scales=ss)
        ctx.outcomes.add(('same', ss))
      else:
        e = [x / n * mx for x in g]
        if not close(ul, e, 4 * rtol, 1e-300 if dtype is None else 1e-30):
          ctx.fail('clip_by_global_norm(%g) of norm %g: %s' % (mx, n, worst(ul, e)), scales=ss)
        if abs(m.norm(ul) - mx) > 8 * rtol * mx:
          ctx.fail('clip_by_global_norm(%g) returned norm %g' % (mx, m.norm(ul)))
        ctx.outcomes.add(('clipped', ss))
      # The global norm itself.
      gn = float(optax.global_norm(gt))
      if abs(gn - n) > 4 * rtol * n:
        ctx.fail('global_norm is %r, expected %r' % (gn, n), scales=ss)
  ctx.traces += 1
  ctx.sample({'tree': tree, 'max norms': list(maxes), 'leaf scales': list(scales)})


def integers(ctx, tree):
  """Integral vectors whose norm is exact: at and around the bound."""
  t = Tree(tree)
  tx = optax.clip_by_global_norm(5.)
  for x, y in itertools.product(range(-6, 7), repeat=2):
    g = t.zeros()
    order = [i for i in range(t.n) if g[i].size]
    g[order[0]].reshape(-1)[0] = x
    g[order[-1]].reshape(-1)[-1] += y
    gt = t.build(g)
    n = m.norm(g)
    u = leaves_of(tx.update(gt, tx.init(gt))[0])
    e = g if n <= 5 else [v * 5 / n for v in g]
    ctx.transitions += 1
    ctx.states += 1
    if not close(u, e, 1e-12, 0):
      ctx.fail('clip_by_global_norm(5) of norm %g: %s' % (n, worst(u, e)))
    if abs(float(optax.global_norm(gt)) - n) > 1e-12 * n:
      ctx.fail('global_norm of %s is %r' % ((x, y), float(optax.global_norm(gt))))
    if n <= 4.999 and not all((a == b).all() for a, b in zip(u, g)):
      ctx.fail('gradients of norm %g were changed' % n)
  ctx.traces += 1


def tied(ctx, depth):
  """Leaves that are the same array object count once each."""
  x, y = jnp.asarray([3., 4.]), jnp.asarray([[1., 2.], [2., 4.]])
  menu = (x, y, x.copy(), jnp.asarray(2.))
  for n in range(1, depth + 1):
    for word in itertools.product(range(len(menu)), repeat=n):
      for wrap in (jnp.asarray, np.asarray):
        made = [wrap(v) for v in menu]
        gt = [made[i] for i in word]
        exact = math.sqrt(sum((25., 25., 25., 4.)[i] for i in word))
        ctx.transitions += 1
        if abs(float(optax.global_norm(gt)) - exact) > 1e-12 * exact:
          ctx.fail('global_norm of leaves %s is %r, expected %r' % (word, float(optax.global_norm(gt)), exact))
        tx = optax.clip_by_global_norm(1.5)
        u = leaves_of(tx.update(gt, tx.init(gt))[0])
        e = [np.asarray(v) * (1.5 / exact) for v in gt]
        if not close(u, e, 1e-12, 0):
          ctx.fail('clip_by_global_norm(1.5) of leaves %s: %s' % (word, worst(u, e)))
      ctx.states += 1
  ctx.traces += 1


def mixed(ctx):
  """Leaves of different precision keep their dtype and share one factor."""
  t = Tree('pair')
  for da, db in itertools.product(('float32', 'bfloat16', 'float16'), repeat=2):
    for s in (0.01, 1., 10.):
      gt = t.build(t.vals(1, s), [da, db])
      g = leaves_of(gt)
      u, _ = optax.clip_by_global_norm(1.).update(gt, optax.EmptyState())
      if [str(x.dtype) for x in u] != [da, db]:
        ctx.fail('dtypes %s became %s' % ((da, db), [str(x.dtype) for x in u]))
      n = m.norm(g)
      e = g if n < 1 else [x / n for x in g]
      ctx.transitions += 1
      if not close(leaves_of(u), e, 3e-2, 1e-6):
        ctx.fail('mixed dtypes %s: %s' % ((da, db), worst(leaves_of(u), e)))
  ctx.states += 1
  ctx.traces += 1


def UNITS(tier):
  T = tier == 'thorough'
  u = [('mixed', mixed, dict(x64=False)), ('tied', tied, dict(depth=5 if T else 3))]
  ds = (0., 1e-3, 0.5, 1., 2.5, 1e6)
  vals = sorted({s * v for v in (0., 1e-8, 1e-3, 0.4999, 0.5, 0.5001, 1., 2.5, 3., 7e3, 1e6, 1e30) for s in (1, -1)})
  vals += [float('inf'), float('-inf')]
  for mode in ('eager', 'jit'):
    u.append(('values64-' + mode, values, dict(ds=ds, vals=vals, dtype='float64', mode=mode)))
    for dt in ('float32', 'bfloat16'):
      u.append(('values-%s-%s' % (dt, mode), values, dict(ds=ds, vals=vals, dtype=dt, mode=mode, x64=False)))
  scales = (0., 1e-3, 0.2, 1., 30.)
  for tree in ('scalar', 'vec', 'pair', 'dict', 'nest', 'deep'):
    n = Tree(tree).n
    for mode in ('eager', 'jit'):
      sc = scales if n <= 3 or T else (0., 0.2, 30.)
      u.append(('norms-%s-%s' % (tree, mode), norms, dict(
          tree=tree, maxes=(1e-3, 1., 10.), scales=sc if n < 5 else sc[::2] + (1.,), mode=mode)))
    u.append(('norms32-' + tree, norms, dict(tree=tree, maxes=(1e-3, 1., 10.), scales=(0., 1e-3, 1.) if n > 3 else scales,
                                             mode='jit', dtype='float32', rtol=2e-6, x64=False)))
    u.append(('integers-' + tree, integers, dict(tree=tree)))
  for tree in ALL:
    cases = [('norm%g' % c, lambda c=c: optax.clip_by_global_norm(c), m.ClipNorm(c)) for c in (0.1, 1., 100.)]
    cases += [('clip%g' % c, lambda c=c: optax.clip(c), m.Clip(c)) for c in (0.1, 1., 100.)]
    u.append(('tree-' + tree, wide, dict(cases=cases, tree=tree, letters='zabcpmLsthH', depth=2 if not T else 3, mode='jit')))
  for lab, mk, mo in (('norm', lambda: optax.clip_by_global_norm(1.), m.ClipNorm(1.)), ('clip', lambda: optax.clip(0.6), m.Clip(0.6))):
    u.append(('closed-' + lab, deep, dict(make=mk, model=mo, tree='dict', letters='zabLs', depth=5, closed=True, label=lab)))
  for tree in LARGE:
    u.append(('tree-' + tree, wide, dict(cases=cases, tree=tree, letters='zaLsh', depth=1, mode='jit')))
  return u
