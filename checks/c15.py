"""C15: apply_if_finite skips non-finite trees until too many come in a row."""
import numpy as np
import jax
import jax.numpy as jnp
import optax

from mc import models as m
from mc.explore import Spec, explore, lasso, canon_sut
from mc.trees import LARGE, ALL, Tree, grads, leaves_of
from mc.wrap import inners, real, same, val

ASSUMPTIONS = ['finite gradient values outside the alphabet behave like those in it']


def view(s, mm):
  got = (val(s.notfinite_count), val(s.last_finite), val(s.total_notfinite))
  exp = (mm['run'], mm['last'], mm['total'])
  if got != exp:
    return 'reported (run, last finite, total) = %s, expected %s' % (got, exp)


def view_real(s, mm):
  return view(s, mm) or (None if same(s.inner_state, mm['inner']) else
                         'the wrapped state differs from that of the accepted history')


def histories(ctx, inner, limit, letters, depth, tree='dict', closed=False, mode='jit',
              against='model'):
  label, make, model = inner
  t = Tree(tree)
  tx = optax.apply_if_finite(make(), limit)
  if against == 'real':
    model = m.IfFinite(real(label), limit)
    v = view_real
  else:
    model = m.IfFinite(model, limit)
    v = view
  explore(ctx, Spec(tx, model, t, mode=mode, view=v, label='if_finite(%s,%d)' % (label, limit)),
          grads(t, letters), depth, closed=closed)


def everywhere(ctx, tree, dtype=None):
  """A non-finite value at every position of every leaf is noticed."""
  t = Tree(tree)
  inner = optax.trace(0.5, False)
  tx = optax.apply_if_finite(inner, 3)
  step, inner_step = jax.jit(tx.update), jax.jit(inner.update)
  base = t.vals(1)
  ps = t.build(t.vals(9), dtype)
  s0 = tx.init(ps)
  s1 = step(t.build(base, dtype), s0, ps)[1]
  for li, l in enumerate(base):
    for pos in range(l.size):
      for bad in (np.nan, np.inf, -np.inf):
        g = [x.copy() for x in base]
        g[li].reshape(-1)[pos] = bad
        gt = t.build(g, dtype)
        for s in (s0, s1):
          u, n = step(gt, s, ps)
          ctx.transitions += 1
          ctx.outcomes.add((li, pos, repr(bad)))
          if any(np.any(x != 0) for x in leaves_of(u)):
            ctx.fail('update is not zero for %r at leaf %d entry %d of %s' % (bad, li, pos, tree))
          if canon_sut(n.inner_state) != canon_sut(s.inner_state):
            ctx.fail('the wrapped state changed for %r at leaf %d entry %d of %s' % (bad, li, pos, tree))
          if (val(n.notfinite_count), val(n.last_finite), val(n.total_notfinite)) != (1, False, 1):
            ctx.fail('counters wrong for %r at leaf %d entry %d of %s' % (bad, li, pos, tree))
  # Finite trees, however large or small, are never rejected (sums, squares and
  # averages of the entries overflow for the last ones).
  fi = jnp.finfo(dtype or np.float64)
  big, tiny = float(fi.max), float(fi.tiny)
  cases = [('%g x' % k, [x * k for x in base]) for k in (0., tiny, 1e3, big / 4)]
  for v in (big, -big, tiny):
    cases.append(('all %g' % v, [np.full(x.shape, v) for x in base]))
    for li, l in enumerate(base):
      for pos in range(l.size):
        g = [x.copy() for x in base]
        g[li].reshape(-1)[pos] = v
        cases.append(('%g at leaf %d entry %d' % (v, li, pos), g))
  for what, g in cases:
    u, n = step(t.build(g, dtype), s1, ps)
    ctx.transitions += 1
    if not val(n.last_finite) or val(n.notfinite_count) or val(n.total_notfinite):
      ctx.fail('a finite tree (%s) was rejected' % what)
    want = inner_step(t.build(g, dtype), s1.inner_state, ps)[0]
    for x, y in zip(leaves_of(u), leaves_of(want)):
      if not np.array_equal(x, y, equal_nan=True):
        ctx.fail('a finite tree (%s) was not passed to the wrapped transformation' % what)
  ctx.states += 2
  ctx.traces += 2
  ctx.sample({'tree': tree, 'bad': 'nan/inf/-inf at each of %d entries' % sum(l.size for l in base)})


def runs(ctx, inner, limit, mode='jit'):
  """Runs of k bad trees (k up to limit+3) between good ones, twice over."""
  label, make, model = inner
  t = Tree('scalar')
  g = dict(grads(t, 'abNI'))
  tx = optax.apply_if_finite(make(), limit)
  sp = Spec(tx, m.IfFinite(m.Real(make(), model.needs_params), limit), t, mode=mode,
            view=view_real, label='if_finite(%s,%d)' % (label, limit))
  for k1 in range(limit + 4):
    for k2 in range(limit + 4):
      seq = 'a' + 'N' * k1 + 'b' + 'I' * k2 + 'a'
      lasso(ctx, sp, [(c, g[c]) for c in seq], [('b', g['b'])], len(seq) + 2)


def late(ctx, inner, starts, depth=4):
  """After long runs of skipped gradients: the counts go on and the limit is kept."""
  label, make, model = inner
  t = Tree('pair')
  for n in starts:
    for limit in (n - 1, n + 1, n + 3):
      sp = Spec(optax.apply_if_finite(make(), limit), m.IfFinite(real(label), limit), t, view=view_real,
                label='if_finite(%s,%d) after %d skips' % (label, limit, n))
      sp.start = lambda s, mm: (s._replace(notfinite_count=jnp.asarray(n, s.notfinite_count.dtype),
                                           total_notfinite=jnp.asarray(n + 2, s.total_notfinite.dtype),
                                           last_finite=jnp.asarray(False)),
                                {**mm, 'run': n, 'total': n + 2, 'last': False})
      explore(ctx, sp, grads(t, 'aNI'), depth)


def UNITS(tier):
  T = tier == 'thorough'
  u = []
  for inner in inners():
    for limit in (0, 1, 2, 3):
      d = 6 if T else 5
      if inner[0] != 'sm3':  # what it does with an accepted NaN is not specified
        u.append(('hist-%s-%d' % (inner[0], limit), histories, dict(
            inner=inner, limit=limit, letters='abNI', depth=d)))
      u.append(('real-%s-%d' % (inner[0], limit), histories,
                dict(inner=inner, limit=limit, letters='aNz', depth=d + 2, tree='nest', against='real')))
  for inner in inners('mom', 'adam', 'adamw'):
    u.append(('closed-%s' % inner[0], histories, dict(
        inner=inner, limit=2, letters='abN', depth=8 if T else 6, closed=True)))
    u.append(('eager-%s' % inner[0], histories, dict(
        inner=inner, limit=1, letters='aJM', depth=5 if T else 3, mode='eager')))
    for limit in (0, 1, 4, 7) + ((12,) if T else ()):
      u.append(('runs-%s-%d' % (inner[0], limit), runs, dict(inner=inner, limit=limit)))
  u.append(('runs32', runs, dict(inner=inners('mom')[0], limit=2, x64=False)))
  for tree in ALL:
    u.append(('everywhere-' + tree, everywhere, dict(tree=tree)))
    u.append(('trees-' + tree, histories, dict(inner=inners('mom')[0], limit=2, letters='aNMIJ',
                                               depth=5 if T else 4, tree=tree, against='real')))
  for dt in ('bfloat16', 'float16', 'float32'):
    u.append(('everywhere-nest-' + dt, everywhere, dict(tree='nest', dtype=dt)))
  for tree in LARGE:
    u.append(('trees-' + tree, histories, dict(inner=inners('mom')[0], limit=2, letters='aNMIJ', depth=3, tree=tree, against='real')))
  u.append(('everywhere-leafy', everywhere, dict(tree='leafy', dtype='float32')))
  for name in ('sgd', 'mom') if not T else ('sgd', 'mom', 'adam'):
    u.append(('late-' + name, late, dict(inner=inners(name)[0], starts=sorted(
        {2**k + d for k in (range(3, 31) if T else (7, 8, 15, 16, 24, 30)) for d in (-2, -1)}))))
  return u
