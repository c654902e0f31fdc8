"""C03: updates and states keep tree structure, shapes and dtypes."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc import catalog
from mc.trees import ALL, Tree, grads

ASSUMPTIONS = ['shapes and dtypes do not depend on array values (checked on concrete histories for every entry)',
               'trees and dtypes outside the lists behave like those in them']

TREES = ALL


def sig(x):
  """Structure, shapes and dtypes."""
  leaves, td = jax.tree_util.tree_flatten(x)
  return td, [(tuple(np.shape(l)), str(jnp.asarray(l).dtype if not hasattr(l, 'dtype') else l.dtype)) for l in leaves]


def diff(a, b):
  if a[0] != b[0]:
    return 'structure %s instead of %s' % (a[0], b[0])
  for i, (x, y) in enumerate(zip(a[1], b[1])):
    if x != y:
      return 'leaf %d is %s instead of %s' % (i, x, y)


def expected(sy, g, ps):
  """Signature the updates must have."""
  if 'k' in sy.t:
    return sig(optax.LookaheadParams(fast=g, slow=ps.slow))
  if 'g' in sy.t:
    td, ls = sig(g)
    return td, [(s[1:], d) for s, d in ls]
  return sig(g)


def abstract(x):
  return jax.tree_util.tree_map(lambda l: jax.ShapeDtypeStruct(np.shape(l), l.dtype), x)


def check(ctx, name, tree, dtype, steps):
  t = Tree(tree)
  sy = catalog.Sys(name, t, dtype)
  tx = catalog.make(name)
  ps = sy.params()
  g = sy.grad(t.vals(1))
  label = '%s on %s of %s' % (name, tree, dtype)
  if sy.skip():
    try:
      jax.eval_shape(lambda g, p: tx.update(g, tx.init(p), p), g, ps)
    except ValueError:
      ctx.transitions += 1
      return
    ctx.fail('%s: a leaf of more than four axes was accepted' % label)
  want = expected(sy, g, ps)
  s = jax.eval_shape(tx.init, ps)
  # What init returns without tracing has the same signature.
  d = diff(sig(tx.init(ps)), sig(s))
  if d:
    ctx.fail('%s: initial state: %s' % (label, d))
  ctx.states += 1
  for i in range(steps):
    u, n = jax.eval_shape(tx.update, abstract(g), s, abstract(ps))
    ctx.transitions += 1
    d = diff(sig(u), want)
    if d:
      ctx.fail('%s: update: %s' % (label, d))
    d = diff(sig(n), sig(s))
    if d:
      ctx.fail('%s: state after update %d: %s' % (label, i + 1, d))
    s = n
  # The state can be carried through a compiled loop.
  def loop(ps, g):
    def body(c, _):
      s, _ = c
      u, s = tx.update(g, s, ps)
      return (s, u), None
    s = tx.init(ps)
    u, s = tx.update(g, s, ps)
    return jax.lax.scan(body, (s, u), None, length=3)[0]
  try:
    s2, u2 = jax.eval_shape(loop, ps, g)
  except TypeError as e:
    ctx.fail('%s: the state cannot be carried through a loop: %s' % (label, str(e)[:300]))
  ctx.transitions += 1
  d = diff(sig(s2), sig(s)) or diff(sig(u2), want)
  if d:
    ctx.fail('%s: after a loop: %s' % (label, d))
  # Initialising inside the loop's caller and carrying the initial state itself.
  def loop0(ps, g):
    def body(s, _):
      return tx.update(g, s, ps)[::-1]
    return jax.lax.scan(body, tx.init(ps), None, length=2)
  jax.eval_shape(loop0, ps, g)
  ctx.transitions += 1
  ctx.traces += 1
  ctx.outcomes.add((name, tree, str(dtype)))
  ctx.sample(label)


def table(ctx, name, trees, dtypes, steps=2):
  for tree, dt in itertools.product(trees, dtypes):
    check(ctx, name, tree, dt, steps)


def concrete(ctx, name, tree, dtype, letters, depth):
  """The same on real arrays, for every short history."""
  t = Tree(tree)
  sy = catalog.Sys(name, t, dtype)
  if sy.skip():
    return
  tx = catalog.make(name)
  ps = sy.params()
  gs = [(x, sy.grad(v)) for x, v in grads(t, letters)]
  want = expected(sy, gs[0][1], ps)
  s0 = tx.init(ps)
  for hist in itertools.product(gs, repeat=depth):
    s = s0
    for x, g in hist:
      u, n = tx.update(g, s, ps)
      ctx.transitions += 1
      d = diff(sig(u), want) or diff(sig(n), sig(s0))
      if d:
        ctx.fail('%s on %s of %s, concrete: %s' % (name, tree, dtype, d), history=[x for x, _ in hist])
      new = optax.apply_updates(ps, u)
      d = diff(sig(new), sig(ps))
      if d:
        ctx.fail('%s on %s of %s: parameters after the update: %s' % (name, tree, dtype, d))
      s = n
    ctx.traces += 1
  ctx.states += 1


def mixed(ctx, name, tree):
  """Every assignment of floating dtypes to the leaves (up to three leaves)."""
  t = Tree(tree)
  sy = catalog.Sys(name, t)
  if sy.skip():
    return
  tx = catalog.make(name)
  for dts in itertools.product(('float32', 'bfloat16', 'float16'), repeat=min(t.n, 3)):
    d = [dts[i % len(dts)] for i in range(t.n)]
    sy = catalog.Sys(name, t, d)
    ps, g = sy.params(), sy.grad(t.vals(1))
    s = jax.eval_shape(tx.init, ps)
    u, n = jax.eval_shape(tx.update, g, s, ps)
    ctx.transitions += 1
    m = diff(sig(u), expected(sy, g, ps)) or diff(sig(n), sig(s))
    if m:
      ctx.fail('%s on %s with dtypes %s: %s' % (name, tree, d, m))
  ctx.states += 1
  ctx.traces += 1
  u, n = tx.update(g, tx.init(ps), ps)
  m = diff(sig(u), expected(sy, g, ps))
  if m:
    ctx.fail('%s on %s with dtypes %s, concrete: %s' % (name, tree, d, m))


def UNITS(tier):
  T = tier == 'thorough'
  u = []
  half = ('float32', 'bfloat16', 'float16')
  for name in catalog.CATALOG:
    trees = ALL
    for x64 in (False, True):
      dts = (half if not x64 else half + ('float64',)) if T else (('float32', 'bfloat16') if not x64 else ('float16', 'float64'))
      for i in range(2):
        u.append(('abstract-%s-%s-%d' % (name, 'x64' if x64 else 'x32', i), table,
                  dict(name=name, trees=ALL[i::2] if T or x64 is False else SMALLER[i::2], dtypes=dts, x64=x64)))
    u.append(('concrete-' + name, concrete, dict(name=name, tree='dict', dtype='float32', letters='az', depth=3 if T else 2, x64=False)))
    u.append(('concrete16-' + name, concrete, dict(name=name, tree='pair', dtype='bfloat16', letters='az', depth=3 if T else 2, x64=False)))
    if T:
      u.append(('concrete64-' + name, concrete, dict(name=name, tree='nest', dtype='float64', letters='az', depth=2)))
  for name in list(catalog.names('l')) + ['dp_aggregate', 'dpsgd', 'lookahead', 'lookahead_reset']:
    for tree in ('pair', 'dict', 'nest', 'ranks') if T else ('pair', 'ranks'):
      u.append(('mixed-%s-%s' % (name, tree), mixed, dict(name=name, tree=tree, x64=False)))
  return u


SMALLER = ('scalar', 'dict', 'nest', 'ranks')
