"""C46: runs in half precision track single precision, those in single precision double precision."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax
from jax.experimental import enable_x64

from mc import catalog
from mc.explore import set_counts

ASSUMPTIONS = ['single-precision runs are right (C05-C23)', 'C04: a compiled loop and single calls agree']

# Injected hyper-parameters take the precision of the gradients (as documented by the reported
# values), in which Adam's default b2 is 1; radam_fast has rho_inf = 4, a pole of its own.
NAMES = [n for n in catalog.names(lack='rg') if n not in ('inject_hyperparams', 'scale_by_radam_fast')]
tmap = jax.tree_util.tree_map

# factors that are exact in both half precisions
LETTERS = {'bfloat16': (1., -0.5, 0., 3., 2.**-6, -200.), 'float16': (1., -0.5, 3., 0.25, -8.),
           'float32': (1., -0.5, 0., 3., 2.**-10, -3000.)}
SHAPES = {
    'dict': lambda f: {'w': f((2, 2), 0), 'b': f((2,), 1), 's': f((), 2)},
    'one': lambda f: f((3,), 1),
    'deep': lambda f: [f((2, 1, 2), 3), (f((1,), 4),)],
}
# largest error over |x| + the largest entry of the leaf in the history
FLOOR = {'bfloat16': 1e-30, 'float16': 2.**-23, 'float32': 1e-30}  # below the normal numbers
TOL = {'bfloat16': 0.04, 'float16': 0.01, 'float32': 1e-4}
MORE = {'bfloat16': jnp.float32, 'float16': jnp.float32, 'float32': jnp.float64}
LOOSE = {'lookahead': 1.5, 'lookahead_reset': 1.5, 'rmsprop_full': 2.}


def base(shape, k):
  n = int(np.prod(shape, dtype=np.int64))
  menu = np.array([1., -.75, .5, 1.5, -1.25, .625, -1.])
  return menu[(np.arange(n) * 2 + k) % 7].reshape(shape)


def runs(name, dtype, shape, depth, starts, letters):
  """All histories in one dtype: list of arrays (history, step, ...)."""
  tx = catalog.make(name)
  p = tmap(lambda x: jnp.asarray(x * 0.5, dtype), SHAPES[shape](lambda s, k: base(s, k + 3)))
  q = optax.LookaheadParams(fast=p, slow=p) if 'k' in catalog.traits(name) else p
  table = tmap(lambda x: jnp.asarray(np.stack([x * l for l in letters]), dtype), SHAPES[shape](base))
  seqs = jnp.asarray(list(itertools.product(range(len(letters)), repeat=depth)), jnp.int32)
  def one(seq, start):
    s0 = set_counts(tx.init(q), start)
    def body(s, i):
      u, s = tx.update(tmap(lambda t: t[i], table), s, q)
      return s, u
    return jax.lax.scan(body, s0, seq)[1]
  f = jax.jit(jax.vmap(one, (0, None)))
  return [f(seqs, jnp.asarray(n, jnp.int32)) for n in starts], seqs


def track(ctx, name, dtype, shapes, depth, starts):
  for shape in shapes:
    letters = LETTERS[dtype]
    if name.startswith('fromage') or name in ('lamb', 'lamb_sched', 'multi_steps_sched'):
      # the norm of a leaf and its square have to be representable
      letters = tuple(l for l in letters if abs(l) < 100)
    if 'lamb' in name or name == 'multi_steps_sched':
      # a trust ratio magnifies the rounding of averages that cancel
      letters = tuple(l for l in letters if l > 0)
    with enable_x64(dtype == 'float32'):
      refs, seqs = runs(name, MORE[dtype], shape, depth, starts, letters)
      refs = tmap(np.asarray, refs)
    gots, _ = runs(name, dtype, shape, depth, starts, letters)
    for start, ref, got in zip(starts, refs, gots):
      compare(ctx, name, dtype, shape, depth, start, letters, ref, got, seqs)
  ctx.sample({'transformation': name, 'dtype': dtype, 'letters': letters, 'depth': depth, 'start counts': list(starts)})


def compare(ctx, name, dtype, shape, depth, start, letters, ref, got, seqs):
  for l, (x, y) in enumerate(zip(jax.tree_util.tree_leaves(ref), jax.tree_util.tree_leaves(got))):
    if y.dtype != jnp.dtype(dtype):
      ctx.fail('%s: updates of %s gradients are %s' % (name, dtype, y.dtype))
    x = np.asarray(x, np.float64).reshape(len(seqs), depth, -1)
    y = np.asarray(y.astype(jnp.float32), np.float64).reshape(len(seqs), depth, -1)
    if not np.isfinite(x).all():
      ctx.fail('%s: non-finite update in more precision' % name)
    scale = np.abs(x).max((1, 2), keepdims=True)
    if 'k' in catalog.traits(name):
      scale = np.maximum(scale, 0.75)  # differences with the parameters
    if name == 'keep_params_nonnegative':
      scale = np.maximum(scale, 0.75)
    with np.errstate(all='ignore'):
      err = np.maximum(np.abs(x - y) - FLOOR[dtype], 0.) / (np.abs(x) + scale + 1e-30)
    err = np.where((x == 0) & (y == 0), 0., err)
    tol = TOL[dtype] * LOOSE.get(name, 1.)
    worst = np.where(np.isfinite(err), err, np.inf)
    ctx.outcomes.add((name, dtype, int(worst.max() / tol * 10) if np.isfinite(worst.max()) else -1))
    if not (worst <= tol).all():
      a, t, e = np.unravel_index(np.argmax(worst), worst.shape)
      ctx.fail('%s in %s: update %d of leaf %d is %r, in more precision %r' % (name, dtype, t + 1, l, y[a, t, e], x[a, t, e]),
               shape=shape, start=start, history=[letters[i] for i in np.asarray(seqs[a])], error=float(worst[a, t, e]))
  n = len(seqs) * depth * 2
  ctx.traces += len(seqs) * 2
  ctx.states += n
  ctx.transitions += n


# ---- schedules and training loops ----

def loop(ctx, name, dtype, steps, every):
  """Long runs with one parameter value: counters beyond the integers a half can hold."""
  out = {}
  for d in (jnp.float32, dtype):
    tx = catalog.make(name)
    p = jnp.asarray([0.5, -0.75, 1.], d)
    g = jnp.asarray([1., -0.5, 2.], d)
    q = optax.LookaheadParams(fast=p, slow=p) if 'k' in catalog.traits(name) else p
    def body(s, t):
      u, s = tx.update(jnp.where(t % 2 == 0, 1., 0.5).astype(d) * g, s, q)
      return s, u
    out[str(jnp.dtype(d))] = jax.jit(lambda: jax.lax.scan(body, tx.init(q), jnp.arange(steps))[1])()
  x, y = [[np.asarray(l.astype(jnp.float32), np.float64) for l in jax.tree_util.tree_leaves(o)] for o in out.values()]
  for a, b in zip(x, y):
    scale = np.maximum(np.abs(a), 0.75 if 'k' in catalog.traits(name) else np.abs(a).max(0) * 0.05)
    err = np.abs(a - b) / (scale + 1e-30)
    err = np.where(np.isfinite(err), err, np.inf)
    ctx.outcomes.add((name, round(float(err.max()), 2)))
    if err.max() > every:
      t = np.unravel_index(np.argmax(err), err.shape)
      ctx.fail('%s in %s: update %d of a long run is %r, in single precision %r' % (name, dtype, t[0] + 1, b[t], a[t]))
  ctx.traces += 2
  ctx.states += 2 * steps
  ctx.transitions += 2 * steps
  ctx.sample({'transformation': name, 'dtype': dtype, 'steps': steps})


# sums that a half cannot hold for long are left to the short histories
LOOP = [n for n in NAMES if n not in ('scale_by_rss', 'adagrad', 'scale_by_sm3', 'sm3', 'lamb', 'lamb_sched', 'multi_steps_sched',
                                      'rmsprop_full', 'scale_by_stddev', 'scale_by_belief', 'adabelief')]


def UNITS(tier):
  T = tier == 'thorough'
  u = []
  for name in NAMES:
    for dtype in ('bfloat16', 'float16'):
      starts = (0, 300, 70000) if 'c' in catalog.traits(name) else (0,)
      if T and 'c' in catalog.traits(name):
        starts = (0, 1, 255, 257, 300, 2047, 2049, 70000, 2**24 + 1, 2**31 - 3)
      u.append(('track-%s-%s' % (name, dtype), track, dict(name=name, dtype=dtype, shapes=tuple(SHAPES) if T else ('dict', 'deep'),
                                                          depth=5 if T else 3, starts=starts, x64=False)))
    starts = starts if 'c' in catalog.traits(name) else (0,)
    u.append(('track-%s-float32' % name, track, dict(name=name, dtype='float32', shapes=tuple(SHAPES) if T else ('dict',),
                                                     depth=5 if T else 3, starts=starts, x64=False)))
  for name in LOOP:
    u.append(('loop-' + name, loop, dict(name=name, dtype='bfloat16', steps=5000 if T else 600, every=0.35, x64=False)))
  return u
