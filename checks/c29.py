"""C29: applying and averaging parameters computes the documented combination."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc.trees import LARGE, ALL, Tree, close, grads, leaves_of, worst

ASSUMPTIONS = ['leaf values outside the alphabet behave like those in it']
MAX = 2**31 - 1


def same_form(ctx, what, got, ref):
  """Structure, shapes and dtypes of `ref`."""
  if jax.tree_util.tree_structure(got) != jax.tree_util.tree_structure(ref):
    ctx.fail('%s changes the structure: %s' % (what, jax.tree_util.tree_structure(got)))
  for a, b in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(ref)):
    b = jnp.asarray(b)
    if jnp.shape(a) != b.shape or jnp.asarray(a).dtype != b.dtype:
      ctx.fail('%s returns %s %s for a parameter %s %s' % (what, jnp.asarray(a).dtype, jnp.shape(a), b.dtype, b.shape))


def apply_history(ctx, tree, letters, depth, mode, rtol=1e-9):
  """All histories of updates: the parameters are the accumulated sum."""
  t = Tree(tree)
  f = jax.jit(optax.apply_updates) if mode == 'jit' else optax.apply_updates
  al = grads(t, letters)
  gs = {x: t.build(g) for x, g in al}
  p0 = t.vals(9, 0.8)
  stack = [((), t.build(p0), p0)]
  while stack:
    h, p, e = stack.pop()
    for x, g in al:
      q = f(p, gs[x])
      with np.errstate(all='ignore'):
        e1 = [a + b for a, b in zip(e, g)]
      ctx.transitions += 1
      same_form(ctx, 'apply_updates', q, p)
      if not close(leaves_of(q), e1, rtol, rtol * 1e3):
        ctx.fail('parameters after %s: %s' % (h + (x,), worst(leaves_of(q), e1)), history=h + (x,))
      ctx.outcomes.add(str(np.round(e1[0].reshape(-1)[:1], 5)))
      if len(h) + 1 < depth:
        ctx.states += 1
        stack.append((h + (x,), q, e1))
      else:
        ctx.traces += 1
  ctx.sample({'tree': tree, 'letters': letters, 'depth': depth})


DT = {'f16': jnp.float16, 'bf16': jnp.bfloat16, 'f32': jnp.float32, 'f64': jnp.float64, 'i32': jnp.int32, 'i8': jnp.int8,
      'u8': jnp.uint8, 'c64': jnp.complex64}


def apply_dtypes(ctx, trees, mode):
  """Every pair of parameter and update dtypes keeps the parameter's dtype."""
  f = jax.jit(optax.apply_updates) if mode == 'jit' else optax.apply_updates
  for tree in trees:
    t = Tree(tree)
    for dp, du in itertools.product(DT, repeat=2):
      if du == 'c64' and dp != 'c64':
        continue  # dropping an imaginary part is not addition
      p = t.build([np.round(v * 3) for v in t.vals(3, 2., 'pos')], DT[dp])
      u = t.build([np.round(v) for v in t.vals(5, 3., 'pos')], DT[du])
      q = f(p, u)
      ctx.transitions += 1
      same_form(ctx, 'apply_updates (%s + %s)' % (dp, du), q, p)
      pl, ul, ql = [[np.asarray(jnp.asarray(l).astype(jnp.complex64)) for l in jax.tree_util.tree_leaves(x)] for x in (p, u, q)]
      if any(not np.allclose(c, a + b) for a, b, c in zip(pl, ul, ql)):
        ctx.fail('apply_updates (%s + %s) is not the sum' % (dp, du))
      ctx.outcomes.add((dp, du))
    ctx.states += 1
    ctx.traces += 1
  # The sum is converted, not the update: fractions and large updates count in full.
  for dp in [d for d in DT if d not in ('c64', 'bool')]:
    for du in [d for d in DT if d not in ('c64', 'bool')]:
      if jnp.issubdtype(DT[dp], jnp.integer) and jnp.issubdtype(DT[du], jnp.floating):
        a, b = np.array([3, 5, 7, 2]), np.array([1.75, -1.25, -0.5, 0.5])
        q = f(jnp.asarray(a, DT[dp]), jnp.asarray(b, DT[du]))
        ctx.transitions += 1
        if q.dtype != jnp.asarray(a, DT[dp]).dtype or np.asarray(q).tolist() != np.trunc(a + b).tolist():
          ctx.fail('apply_updates (%s + %s) of %s and %s is %s' % (dp, du, a, b, q))
  # numpy and Python leaves
  for p, u in ((np.float32(1.5), 0.25), (1.5, 0.25), (np.ones(2, np.float32), np.ones(2)), (np.arange(3), 1), (2, 1)):
    q = optax.apply_updates({'k': p}, {'k': u})
    ctx.transitions += 1
    same_form(ctx, 'apply_updates of %r' % (p,), q, {'k': p})
    if not np.allclose(np.asarray(q['k']), np.asarray(p) + np.asarray(u)):
      ctx.fail('apply_updates(%r, %r) = %r' % (p, u, q))
  # Small updates are not lost before the addition; mixed precisions per leaf.
  p = {'a': jnp.asarray(1.0, jnp.float32), 'b': jnp.asarray(2.0, jnp.bfloat16), 'c': jnp.asarray(3, jnp.int32)}
  u = {'a': jnp.asarray(2.0**-20, jnp.float32), 'b': jnp.asarray(0.5, jnp.float32), 'c': jnp.asarray(2, jnp.int32)}
  q = f(p, u)
  same_form(ctx, 'apply_updates (mixed)', q, p)
  if float(q['a']) != 1 + 2.0**-20 or float(q['b']) != 2.5 or int(q['c']) != 5:
    ctx.fail('apply_updates on mixed leaves: %s' % (q,))


def incremental(ctx, tree, steps, depth, letters='zabL', mode='eager', how='float', rtol=1e-9):
  """All histories of new tensors: the exponential average."""
  t = Tree(tree)
  f = jax.jit(optax.incremental_update) if mode == 'jit' else optax.incremental_update
  al = grads(t, letters)
  gs = {x: t.build(g) for x, g in al}
  p0 = t.vals(9, 0.8)
  for step in steps:
    arg = {'float': step, 'array': jnp.asarray(step, float), 'np': np.float64(step)}[how]
    stack = [((), t.build(p0), p0)]
    while stack:
      h, old, e = stack.pop()
      for x, g in al:
        q = f(gs[x], old, arg)
        e1 = [step * b + (1 - step) * a for a, b in zip(e, g)]
        ctx.transitions += 1
        if jax.tree_util.tree_structure(q) != t.treedef:
          ctx.fail('incremental_update changes the structure')
        if not close(leaves_of(q), e1, rtol, rtol * 1e2):
          ctx.fail('step size %s, average after %s: %s' % (step, h + (x,), worst(leaves_of(q), e1)), history=h + (x,))
        if step in (0, 1):
          keep = leaves_of(old if step == 0 else gs[x])
          if not close(leaves_of(q), keep, 0, 0):
            ctx.fail('step size %s does not return the %s tensors exactly' % (step, 'old' if step == 0 else 'new'))
        ctx.outcomes.add(str(np.round(e1[0].reshape(-1)[:1], 6)))
        if len(h) + 1 < depth:
          ctx.states += 1
          stack.append((h + (x,), q, e1))
        else:
          ctx.traces += 1
  ctx.sample({'tree': tree, 'step sizes': list(steps), 'depth': depth})


def periodic(ctx, tree, periods, steps, mode):
  """Every step and period: the last periodic copy, along a whole history."""
  t = Tree(tree)
  new = [t.build(t.vals(k, 1. + k)) for k in range(5)]
  f = optax.periodic_update
  if mode == 'jit':
    f = jax.jit(optax.periodic_update, static_argnums=3)
  if mode == 'jit-period':
    f = jax.jit(optax.periodic_update)
  for period in periods:
    old = t.build(t.vals(9, -1.))
    last = leaves_of(old)
    for s in steps:
      q = f(new[s % 5], old, {'python': s, 'eager': jnp.asarray(s, jnp.int32)}.get(mode, jnp.asarray(s, jnp.int32)), period)
      if s % period == 0:
        last = leaves_of(new[s % 5])
      ctx.transitions += 1
      same_form(ctx, 'periodic_update', q, old)
      if not close(leaves_of(q), last, 0, 0):
        ctx.fail('period %d, step %d: the copy is not the %s' % (period, s, 'new tensors' if s % period == 0 else 'old ones'))
      old = q
    ctx.states += len(steps)
    ctx.traces += 1
    ctx.outcomes.add((period, str(np.round(last[0].reshape(-1)[:1], 6))))
  ctx.sample({'tree': tree, 'periods': list(periods), 'steps': [steps[0], steps[-1]]})


def nonfinite(ctx, tree):
  """The side that is not selected never leaks, whatever it contains."""
  t = Tree(tree)
  al = dict(grads(t, 'aNIJ'))
  for x, y in itertools.product('aNIJ', repeat=2):
    new, old = t.build(al[x]), t.build(al[y])
    for s in range(0, 7):
      for fn in (optax.periodic_update, jax.jit(optax.periodic_update, static_argnums=3)):
        q = fn(new, old, jnp.asarray(s), 3)
        ctx.transitions += 1
        if not close(leaves_of(q), al[x] if s % 3 == 0 else al[y], 0, 0):
          ctx.fail('periodic_update at step %d mixes the new and the old tensors' % s)
  ctx.states += 16
  ctx.traces += 1


def UNITS(tier):
  T = tier == 'thorough'
  u = []
  for tree in ALL:
    big = tree in ('big', 'many', 'ranks')
    u.append(('apply-' + tree, apply_history, dict(tree=tree, letters='zabLshNI', depth=2 if big and not T else 3, mode='eager' if not big else 'jit')))
    u.append(('apply-jit-' + tree, apply_history, dict(tree=tree, letters='zaLsI', depth=5 if T else 3, mode='jit')))
    u.append(('incr-' + tree, incremental, dict(tree=tree, steps=(0, 0.1, 0.5, 0.999, 1), depth=2, mode='eager' if not big else 'jit')))
    u.append(('periodic-' + tree, periodic, dict(tree=tree, periods=(1, 2, 3, 7), steps=list(range(0, 30)), mode='jit')))
    u.append(('nonfinite-' + tree, nonfinite, dict(tree=tree)))
  u.append(('apply32', apply_history, dict(tree='nest', letters='zabs', depth=3, mode='jit', rtol=1e-5, x64=False)))
  for mode in ('eager', 'jit'):
    u.append(('dtypes-' + mode, apply_dtypes, dict(trees=('dict', 'nest'), mode=mode)))
    u.append(('dtypes32-' + mode, apply_dtypes, dict(trees=('pair',), mode=mode, x64=False)))
  sizes = (0, 1e-6, 0.01, 0.3, 0.5, 2. / 3, 0.9, 0.995, 1., 1)
  for how in ('float', 'array', 'np'):
    u.append(('incr-%s' % how, incremental, dict(tree='dict', steps=sizes, depth=4 if T else 3, mode='jit', how=how)))
  u.append(('incr32', incremental, dict(tree='nest', steps=sizes, depth=3, mode='jit', rtol=1e-5, x64=False)))
  steps = list(range(0, 400 if T else 130)) + [999, 1000, 1001, 2**16, 2**24, 2**24 + 1, 2**30, MAX - 1, MAX]
  for mode in ('python', 'eager', 'jit', 'jit-period'):
    for k in range(3):
      u.append(('steps-%s-%d' % (mode, k), periodic, dict(tree='dict', periods=list(range(1, 14))[k::3] + [100, 1000][k:k + 1],
                   steps=steps if T or mode.startswith('jit') else list(range(28)) + steps[-8:], mode=mode)))
  u.append(('steps32', periodic, dict(tree='dict', periods=(1, 2, 3, 10), steps=steps, mode='jit', x64=False)))
  for tree in LARGE:
    u.append(('apply-jit-' + tree, apply_history, dict(tree=tree, letters='zaL', depth=3, mode='jit')))
    u.append(('incr-' + tree, incremental, dict(tree=tree, steps=(0.1, 1), depth=2, mode='jit')))
    u.append(('periodic-' + tree, periodic, dict(tree=tree, periods=(2, 3), steps=list(range(8)), mode='jit')))
  return u
