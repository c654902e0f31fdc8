"""C30: constraint transformations enforce their constraint and nothing more."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc.trees import LARGE, ALL, Tree, close, grads, leaves_of, worst
from mc.wrap import sched

ASSUMPTIONS = ['parameter and update entries outside the alphabet behave like those in it']

P = [0., -0., 5e-324, 1e-300, 1e-30, 1e-8, 0.1, 0.3, 0.5, 1., 1. + 2**-52, 2.5, 7., 1e8, 1e300]
U = sorted({0., 5e-324, 1e-300, 1e-30, 1e-8, 0.05, 0.1, 0.3, 0.5, 0.7, 1., 1. + 2**-52, 1. - 2**-53, 2.5, 7., 1e8, 1e300})
U = U + [-x for x in U] + [np.inf]
P32 = [0., -0., 1e-30, 1e-8, 0.1, 0.3, 0.5, 1., 1. + 2**-23, 2.5, 7., 1e8, 1e30]
U32 = [0., 1e-30, 1e-8, 0.05, 0.1, 0.3, 0.5, 0.7, 1., 1. + 2**-23, 1. - 2**-24, 2.5, 7., 1e8, 1e30]
U32 = U32 + [-x for x in U32] + [np.inf]


def pairs(ctx, mode, dtype=None):
  """All pairs of a non-negative parameter entry and an update entry at once, in several shapes."""
  x64 = jax.config.jax_enable_x64
  dt = np.float64 if x64 and dtype is None else np.dtype(dtype or np.float32)
  ps, us = (P, U) if dt == np.float64 else (P32, U32)
  if dt.itemsize == 2:
    ps, us = [x for x in ps if x < 1e4], [x for x in us if abs(x) < 1e4 or np.isinf(x)]
  ps, us = np.array(ps, dt), np.array(us + [np.nan], dt)
  pp, uu = [a.reshape(-1) for a in np.meshgrid(ps, us)]
  tx = optax.keep_params_nonnegative()
  f = jax.jit(tx.update) if mode == 'jit' else tx.update
  for shape in ((-1,), (-1, 1), (1, -1)):
    a, b = pp.reshape(shape), uu.reshape(shape)
    tree_p = {'x': jnp.asarray(a), 'y': [jnp.asarray(a[::-1])]}
    tree_u = {'x': jnp.asarray(b), 'y': [jnp.asarray(b[::-1])]}
    u, s = f(tree_u, tx.init(tree_p), tree_p)
    q = optax.apply_updates(tree_p, u)
    for up, qq, p0, u0 in ((u['x'], q['x'], a, b), (u['y'][0], q['y'][0], a[::-1], b[::-1])):
      up, qq = np.asarray(up), np.asarray(qq)
      ctx.transitions += up.size
      if up.dtype != dt or up.shape != p0.shape:
        ctx.fail('the update becomes %s %s' % (up.dtype, up.shape))
      if (qq < 0).any():
        i = int(np.argmax(qq.reshape(-1) < 0))
        ctx.fail('parameter %r, update %r: the new parameter is %r' % (p0.reshape(-1)[i], u0.reshape(-1)[i], qq.reshape(-1)[i]))
      with np.errstate(all='ignore'):
        keep = ~(p0 + u0 < 0)
      same = (up == u0) | (np.isnan(up) & np.isnan(u0))
      if (keep & ~same).any():
        i = int(np.argmax((keep & ~same).reshape(-1)))
        ctx.fail('parameter %r, update %r: changed to %r although the parameter stays non-negative' % (
            p0.reshape(-1)[i], u0.reshape(-1)[i], up.reshape(-1)[i]))
      if (~keep & (qq != 0)).any():
        i = int(np.argmax((~keep & (qq != 0)).reshape(-1)))
        ctx.fail('parameter %r, update %r: moved to %r instead of 0' % (p0.reshape(-1)[i], u0.reshape(-1)[i], qq.reshape(-1)[i]))
      for o in np.round(qq.reshape(-1)[:40], 6).tolist():
        ctx.outcomes.add(o)
  ctx.states += pp.size
  ctx.traces += pp.size
  ctx.sample({'parameter entries': ps.tolist(), 'update entries': us.tolist()})


def singles(ctx, mode):
  """Scalar parameters, one pair at a time."""
  tx = optax.keep_params_nonnegative()
  f = jax.jit(tx.update) if mode == 'jit' else tx.update
  for p0, u0 in itertools.product([0., 0.1, 0.3, 1., 1e8], [0., -0.05, -0.1, -0.3, -0.7, -1., 0.3, -1e8, -1e9]):
    p, g = jnp.asarray(p0), jnp.asarray(u0)
    u, _ = f(g, tx.init(p), p)
    e = -p0 if p0 + u0 < 0 else u0
    ctx.transitions += 1
    if float(u) != e:
      ctx.fail('parameter %r, update %r: got %r, expected %r' % (p0, u0, float(u), e))
  ctx.states += 1
  ctx.traces += 1


def needs_params(ctx):
  tx = optax.keep_params_nonnegative()
  for g in (jnp.ones(2), {'a': jnp.ones(())}):
    for call in (lambda: tx.update(g, tx.init(g), None), lambda: jax.jit(tx.update)(g, tx.init(g), None)):
      ctx.transitions += 1
      try:
        call()
      except ValueError:
        continue
      ctx.fail('keep_params_nonnegative without parameters is accepted')
  ctx.states += 1
  ctx.traces += 1


CHAINS = {
    'alone': (lambda: (optax.identity(), optax.keep_params_nonnegative())),
    'sgd': (lambda: (optax.sgd(1.5), optax.keep_params_nonnegative())),
    'momentum': (lambda: (optax.sgd(0.9, 0.9, True), optax.keep_params_nonnegative())),
    'adam': (lambda: (optax.adam(0.7), optax.keep_params_nonnegative())),
    'adamw': (lambda: (optax.adamw(sched, weight_decay=2.), optax.keep_params_nonnegative())),
    'clip': (lambda: (optax.clip(0.3), optax.scale(-4.), optax.keep_params_nonnegative())),
    'lamb': (lambda: (optax.lamb(0.5), optax.keep_params_nonnegative())),
    'zero_nans': (lambda: (optax.zero_nans(), optax.sgd(0.9), optax.keep_params_nonnegative())),
    'apply_every': (lambda: (optax.sgd(1.1), optax.apply_every(2), optax.keep_params_nonnegative())),
}


def chain_last(ctx, chain, tree, letters, depth, mode='jit'):
  """All histories: last in a chain, parameters stay non-negative, harmless updates are untouched."""
  t = Tree(tree)
  full, rest = optax.chain(*CHAINS[chain]()), optax.chain(*CHAINS[chain]()[:-1])
  f = jax.jit(full.update) if mode == 'jit' else full.update
  r = jax.jit(rest.update) if mode == 'jit' else rest.update
  al = grads(t, letters)
  gs = {x: t.build(g) for x, g in al}
  p0 = t.build(t.vals(9, 0.8, 'pos'))
  stack = [((), full.init(p0), rest.init(p0), p0)]
  while stack:
    h, s, sr, p = stack.pop()
    for x, g in al:
      u, s1 = f(gs[x], s, p)
      v, sr1 = r(gs[x], sr, p)
      q = optax.apply_updates(p, u)
      ctx.transitions += 1
      pl, ul, vl, ql = leaves_of(p), leaves_of(u), leaves_of(v), leaves_of(q)
      if any((a < 0).any() for a in ql):
        ctx.fail('%s: a parameter is negative after %s' % (chain, h + (x,)), history=h + (x,), params=ql)
      with np.errstate(all='ignore'):
        e = [np.where(a + b < 0, -a, b) for a, b in zip(pl, vl)]
      # Entries whose sign is decided by rounding may go either way.
      unsure = [np.abs(a + b) <= 1e-9 * (np.abs(a) + np.abs(b)) for a, b in zip(pl, vl)]
      if not close([np.where(n, 0, a) for a, n in zip(ul, unsure)], [np.where(n, 0, a) for a, n in zip(e, unsure)], 1e-7, 1e-9):
        ctx.fail('%s: update after %s: %s' % (chain, h + (x,), worst(ul, e)), history=h + (x,))
      ctx.outcomes.add(str(np.round(ql[0].reshape(-1)[:1], 6)))
      if len(h) + 1 < depth:
        ctx.states += 1
        stack.append((h + (x,), s1, sr1, q))
      else:
        ctx.traces += 1
  ctx.sample({'chain': chain, 'letters': letters, 'depth': depth})


def nan_patterns(ctx, tree, mode, dtype=None, limit=10):
  """Every set of up to `limit` entries being NaN, other entries finite or infinite."""
  t = Tree(tree)
  tx = optax.zero_nans()
  f = jax.jit(tx.update) if mode == 'jit' else tx.update
  p = t.build(t.vals(9), dtype)
  s = tx.init(p)
  def found(s):
    return [bool(x) for x in jax.tree_util.tree_leaves(s.found_nan)]
  if found(s) != [False] * t.n or jax.tree_util.tree_structure(s.found_nan) != t.treedef:
    ctx.fail('the initial state is %s' % (s,))
  slots = [(i, k) for i, sh in enumerate(t.shapes) for k in range(int(np.prod(sh, dtype=np.int64)))][:limit]
  base = [t.vals(1), t.zeros(), [np.where(np.arange(l.size).reshape(l.shape) % 2, np.inf, -np.inf) for l in t.vals(3)],
          [np.where(np.arange(l.size).reshape(l.shape) % 3 == 1, np.inf, l) for l in t.vals(2)]]
  n = 0
  for mask in range(2**len(slots)):
    bad = [sl for b, sl in enumerate(slots) if mask >> b & 1]
    g = [l.copy() for l in base[n % len(base)]]
    n += 1
    e = [l.copy() for l in g]
    for j, (i, k) in enumerate(bad):
      g[i].reshape(-1)[k] = np.nan if j % 2 else -np.nan
      e[i].reshape(-1)[k] = 0.
    u, s = f(t.build(g, dtype), s, p if n % 2 else None)
    flags = [any(b[0] == i for b in bad) for i in range(t.n)]
    ctx.transitions += 1
    e = leaves_of(t.build(e, dtype))
    if jax.tree_util.tree_structure(u) != t.treedef or not close(leaves_of(u), e, 0, 0):
      ctx.fail('NaN at %s: %s' % (bad, worst(leaves_of(u), e)), grads=g)
    if found(s) != flags or jax.tree_util.tree_structure(s.found_nan) != t.treedef:
      ctx.fail('NaN at %s: reported %s' % (bad, found(s)))
    if any(np.asarray(x).dtype != np.bool_ or np.shape(x) for x in jax.tree_util.tree_leaves(s.found_nan)):
      ctx.fail('the reports are not single booleans')
    if dtype is not None and any(x.dtype != dtype for x in jax.tree_util.tree_leaves(u)):
      ctx.fail('the dtype of the gradients changes')
    ctx.outcomes.add(tuple(flags))
  ctx.states += n
  ctx.traces += n
  ctx.sample({'tree': tree, 'NaN patterns': n})


def nan_history(ctx, tree, letters, depth, mode='jit'):
  """All histories: the report is about the last gradients only; the rest of a chain sees zeros."""
  t = Tree(tree)
  tx = optax.chain(optax.zero_nans(), optax.trace(0.9), optax.scale(-0.5))
  f = jax.jit(tx.update) if mode == 'jit' else tx.update
  al = grads(t, letters)
  gs = {x: t.build(g) for x, g in al}
  stack = [((), tx.init(t.build(t.zeros())), t.zeros())]
  while stack:
    h, s, tr = stack.pop()
    for x, g in al:
      u, s1 = f(gs[x], s)
      with np.errstate(all='ignore'):
        tr1 = [np.where(np.isnan(a), 0., a) + 0.9 * b for a, b in zip(g, tr)]
      ctx.transitions += 1
      if not close(leaves_of(u), [-0.5 * a for a in tr1], 1e-9, 1e-12):
        ctx.fail('after %s: %s' % (h + (x,), worst(leaves_of(u), [-0.5 * a for a in tr1])), history=h + (x,))
      got = [bool(b) for b in jax.tree_util.tree_leaves(s1[0].found_nan)]
      if got != [bool(np.isnan(a).any()) for a in g]:
        ctx.fail('after %s the state reports %s' % (h + (x,), got), history=h + (x,))
      ctx.outcomes.add((h + (x,))[-2:])
      if len(h) + 1 < depth:
        ctx.states += 1
        stack.append((h + (x,), s1, tr1))
      else:
        ctx.traces += 1


def UNITS(tier):
  T = tier == 'thorough'
  u = [('needs-params', needs_params, {})]
  for mode in ('eager', 'jit'):
    u.append(('pairs-' + mode, pairs, dict(mode=mode)))
    u.append(('pairs32-' + mode, pairs, dict(mode=mode, x64=False)))
    u.append(('pairs-f16-' + mode, pairs, dict(mode=mode, dtype='float16')))
    u.append(('pairs-f32-' + mode, pairs, dict(mode=mode, dtype='float32')))
    u.append(('singles-' + mode, singles, dict(mode=mode)))
  for c in CHAINS:
    for tree in ('scalar', 'pair', 'nest'):
      u.append(('chain-%s-%s' % (c, tree), chain_last,
                dict(chain=c, tree=tree, letters='zabpmL' if c != 'zero_nans' else 'zapmLN', depth=5 if T else 4 if tree == 'scalar' else 3)))
  u.append(('chain-eager', chain_last, dict(chain='adam', tree='dict', letters='apmL', depth=3, mode='eager')))
  for tree in ALL:
    u.append(('nan-' + tree, nan_patterns, dict(tree=tree, mode='jit', limit=12 if T else 9)))
    u.append(('nanhist-' + tree, nan_history, dict(tree=tree, letters='zaNMIJ' if tree not in ('big', 'many') else 'aNI', depth=3)))
  u.append(('nan-eager', nan_patterns, dict(tree='nest', mode='eager', limit=5)))
  for d in ('float16', 'bfloat16', 'float32'):
    u.append(('nan-' + d, nan_patterns, dict(tree='nest', mode='jit', dtype=d, limit=7)))
  u.append(('nan32', nan_patterns, dict(tree='dict', mode='jit', limit=8, x64=False)))
  u.append(('nanhist-long', nan_history, dict(tree='pair', letters='zaNMIJ', depth=5 if T else 4)))
  for tree in LARGE:
    u.append(('nanhist-' + tree, nan_history, dict(tree=tree, letters='aNI', depth=2)))
  return u
