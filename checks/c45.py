"""C45: documented misuse raises an error; what is legal is accepted."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax
from optax._src import numerics, wrappers

ASSUMPTIONS = ['nests deeper than the bound behave like those within it']

tmap = jax.tree_util.tree_map

# ---- 1. parameters left out, under every nest of wrappers ----

NEEDS = {
    'add_decayed_weights': lambda: optax.add_decayed_weights(.1),
    'scale_by_trust_ratio': lambda: optax.scale_by_trust_ratio(),
    'adaptive_grad_clip': lambda: optax.adaptive_grad_clip(.3),
    'keep_params_nonnegative': lambda: optax.keep_params_nonnegative(),
    'adamw': lambda: optax.adamw(.1),
    'lamb': lambda: optax.lamb(.1),
    'fromage': lambda: optax.fromage(.1),
}
FREE = {
    'adam': lambda: optax.adam(.1),
    'sgd': lambda: optax.sgd(lambda n: .1 / (1 + n), .9),
    'clip': lambda: optax.chain(optax.clip(1.), optax.clip_by_global_norm(1.)),
    'sm3': lambda: optax.sm3(.1),
    'noise': lambda: optax.noisy_sgd(.1),
    'zero_nans': lambda: optax.chain(optax.zero_nans(), optax.centralize(), optax.apply_every(2)),
    'radam': lambda: optax.radam(.1),
    'rmsprop': lambda: optax.rmsprop(.1, centered=True, momentum=.9),
    'yogi': lambda: optax.yogi(.1),
    'adabelief': lambda: optax.adabelief(.1),
    'adagrad': lambda: optax.adagrad(.1),
}
WRAP = {
    'chain_first': lambda t: optax.chain(t, optax.scale(.5)),
    'chain_last': lambda t: optax.chain(optax.trace(.9), t),
    'masked': lambda t: optax.masked(t, lambda p: tmap(lambda _: True, p)),
    'masked_part': lambda t: optax.masked(t, lambda p: tmap(lambda x: jnp.ndim(x) == 2, p)),
    'finite': lambda t: optax.apply_if_finite(t, 2),
    'multi': lambda t: optax.MultiSteps(t, 2).gradient_transformation(),
    'multi_one': lambda t: optax.MultiSteps(t, 1).gradient_transformation(),
    'flatten': lambda t: optax.flatten(t),
    'maybe': lambda t: wrappers.maybe_update(t, lambda n: n % 2 == 0),
    'inject': lambda t: optax.inject_hyperparams(lambda step: optax.chain(t, optax.scale(step)))(step=.5),
}
P = lambda: {'v': jnp.array([.5, -.25, .0]), 'w': jnp.array([[1., .2], [-.3, .4]])}
G = lambda k: {'v': jnp.sin(jnp.arange(3.) + k), 'w': jnp.cos(jnp.arange(4.).reshape(2, 2) + k)}


def nests(depth):
  for k in range(depth + 1):
    yield from itertools.product(sorted(WRAP), repeat=k)


def wrap(core, nest):
  t = core()
  for w in nest:
    t = WRAP[w](t)
  return t


def call(f, errors):
  try:
    return False, f()
  except errors:
    return True, None


def missing(ctx, cores, depth):
  """update(grads, state) without parameters raises in every nest of wrappers."""
  for name in cores:
    for nest in nests(depth):
      tx = wrap(NEEDS[name], nest)
      s = tx.init(P())
      for mode, f in (('eager', tx.update), ('jit', jax.jit(tx.update))):
        raised, out = call(lambda: f(G(1), s), (ValueError, TypeError))
        ctx.states += 1
        ctx.transitions += 1
        if not raised:
          ctx.fail('%s under %s: %s update without parameters is accepted' % (name, '/'.join(nest) or 'nothing', mode), out=out)
        raised, _ = call(lambda: f(G(1), s, None), ValueError)
        if not raised:
          ctx.fail('%s under %s: %s update with params=None is accepted' % (name, '/'.join(nest) or 'nothing', mode))
      # The rejected call leaves the state usable.
      u, _ = tx.update(G(1), s, P())
      if not all(np.isfinite(np.asarray(x)).all() for x in jax.tree_util.tree_leaves(u)):
        ctx.fail('%s under %s: %r after a rejected update' % (name, nest, u))
      ctx.traces += 1
  ctx.sample({'cores': list(cores), 'nests': sum(1 for _ in nests(depth))})


def free(ctx, cores, depth, steps):
  """What does not need parameters works without, with the same result, in every nest."""
  for name in cores:
    for nest in nests(depth):
      tx = wrap(FREE[name], nest)
      a = b = tx.init(P())
      up = jax.jit(tx.update)
      for t in range(steps):
        u, a = up(G(t), a)
        v, b = up(G(t), b, P())
        ctx.states += 2
        ctx.transitions += 2
        for x, y in zip(jax.tree_util.tree_leaves((u, a)), jax.tree_util.tree_leaves((v, b))):
          if not np.allclose(np.asarray(x, np.float64), np.asarray(y, np.float64), rtol=1e-9, atol=1e-12, equal_nan=True):
            ctx.fail('%s under %s: parameters change the result at step %d' % (name, nest, t + 1), without=u, with_params=v)
      ctx.traces += 1
  ctx.sample({'cores': list(cores), 'nests': sum(1 for _ in nests(depth))})


# ---- 2. arguments ----

def cases():
  """(label, thunk, expected exceptions or None when legal)."""
  s2 = [optax.constant_schedule(.1), optax.constant_schedule(.2)]
  c = []
  for n in (-1, 0, 1, 2, 7):
    c.append(('lookahead(sync_period=%d)' % n, lambda n=n: optax.lookahead(optax.sgd(.1), n, .5), ValueError if n < 1 else None))
  for n in (-5, -1, 0, .5, 1, 10, 1e4):
    c.append(('cosine_decay_schedule(decay_steps=%r)' % n, lambda n=n: optax.cosine_decay_schedule(1., n)(0), ValueError if n <= 0 else None))
  for n in (-5, 0, 10, 1000):
    for f in (optax.linear_onecycle_schedule, optax.cosine_onecycle_schedule):
      c.append(('%s(%d)' % (f.__name__, n), lambda n=n, f=f: f(n, 1.)(0), ValueError if n <= 0 else None))
  for k in ('linear', 'cosine', 'cubic', 'Linear', '', 'lin', 'cos', None):
    c.append(('piecewise_interpolate_schedule(%r)' % k, lambda k=k: optax.piecewise_interpolate_schedule(k, 1., {3: .5})(1),
              None if k in ('linear', 'cosine') else ValueError))
  # a negative factor anywhere
  for sc in itertools.product((1., 0., -.5, -1e-9, 2.), repeat=3):
    for lab, f in (('piecewise_constant_schedule', lambda m: optax.piecewise_constant_schedule(1., m)(5)),
                   ('piecewise_interpolate_schedule', lambda m: optax.piecewise_interpolate_schedule('linear', 1., m)(5))):
      for order in ((3, 6, 9), (9, 3, 6)):
        m = dict(zip(order, sc))
        c.append(('%s(%r)' % (lab, m), lambda m=m, f=f: f(m), ValueError if min(sc) < 0 else None))
  for m in (None, {}):
    c.append(('piecewise_constant_schedule(%r)' % m, lambda m=m: optax.piecewise_constant_schedule(1., m)(5), None))
  for st in ('momentum', ('momentum',), ('momentum', 'nesterov'), 'learning_rates', ('momentum', 'x'), '', ('',), (), ['nesterov']):
    names = {st} if isinstance(st, str) else set(st)
    ok = names <= {'learning_rate', 'momentum', 'nesterov'}
    c.append(('inject_hyperparams(sgd, static_args=%r)' % (st,), lambda st=st: optax.inject_hyperparams(optax.sgd, static_args=st)(.1),
              None if ok else ValueError))
  for kw in (dict(), dict(learning_rate=.1, foo=1), dict(learning_rate=.1, learning=2.)):
    c.append(('inject_hyperparams(sgd)(%r)' % kw, lambda kw=kw: optax.inject_hyperparams(optax.sgd)(**kw), TypeError))
  # chains with states of another length
  for n in range(1, 4):
    txs = [optax.scale(.5), optax.trace(.9), optax.scale_by_adam()][:n]
    tx = optax.chain(*txs)
    full = tx.init(P())
    for m in range(5):
      st = (tuple(full) + (optax.scale(1.).init(P()),) * 4)[:m]
      for mode in ('eager', 'jit'):
        c.append(('chain of %d with %d states (%s)' % (n, m, mode),
                  lambda tx=tx, st=st, mode=mode: (jax.jit(tx.update) if mode == 'jit' else tx.update)(G(0), st), None if m == n else ValueError))
  # ranks under adaptive clipping
  for r in range(7):
    x = {'a': jnp.ones((1, 2, 1, 2, 1, 2)[:r])}
    tx = optax.adaptive_grad_clip(.1)
    c.append(('adaptive_grad_clip on %d axes' % r, lambda tx=tx, x=x: tx.update(x, tx.init(x), x), None if r <= 4 else ValueError))
    # 1-sized axes squeeze away
  # per-example gradients
  for shapes in itertools.product(((), (2,), (3,), (2, 3), (3, 2), (1, 2)), repeat=2):
    b = [s[:1] for s in shapes]
    ok = b[0] == b[1] != ()
    g = {'a': jnp.ones(shapes[0]), 'b': [jnp.ones(shapes[1])]}
    for mk in (lambda: optax.differentially_private_aggregate(1., .1, 0), lambda: optax.dpsgd(.1, 1., .1, 0)):
      tx = mk()
      p = {'a': jnp.ones(shapes[0][1:]), 'b': [jnp.ones(shapes[1][1:])]}
      for mode in ('eager', 'jit'):
        c.append(('private aggregation of %r (%s)' % (shapes, mode),
                  lambda tx=tx, g=g, p=p, mode=mode: (jax.jit(tx.update) if mode == 'jit' else tx.update)(g, tx.init(p)), None if ok else ValueError))
  # losses take floating point numbers
  f, i = jnp.array([[.2, .5], [.3, .1]]), jnp.array([[1, 0], [0, 1]])
  bad = (AssertionError, ValueError, TypeError)
  for lab, fn, first in (('l2_loss', optax.l2_loss, True), ('huber_loss', optax.huber_loss, True)):
    for a, b in itertools.product((f, i, None), repeat=2):
      if a is None:
        continue
      c.append(('%s of %s, %s' % (lab, a.dtype, getattr(b, 'dtype', None)), lambda fn=fn, a=a, b=b: fn(a) if b is None else fn(a, b),
                None if a is f else bad))
  for lab, fn in (('sigmoid_binary_cross_entropy', optax.sigmoid_binary_cross_entropy), ('softmax_cross_entropy', optax.softmax_cross_entropy),
                  ('cosine_similarity', optax.cosine_similarity), ('cosine_distance', optax.cosine_distance)):
    for a, b in itertools.product((f, i), repeat=2):
      c.append(('%s of %s, %s' % (lab, a.dtype, b.dtype), lambda fn=fn, a=a, b=b: fn(a, b), None if a is f and b is f else bad))
    c.append(('%s of shapes (2,2), (2,3)' % lab, lambda fn=fn: fn(f, jnp.ones((2, 3))), bad))
    c.append(('%s of shapes (2,2), (3,2)' % lab, lambda fn=fn: fn(f, jnp.ones((3, 2))), bad))
  c.append(('smooth_labels of integers', lambda: optax.smooth_labels(i, .1), bad))
  c.append(('smooth_labels of numbers', lambda: optax.smooth_labels(f, .1), None))
  # counters
  for dt in (jnp.int32, jnp.float32):
    c.append(('safe_int32_increment of %s' % dt.__name__, lambda dt=dt: numerics.safe_int32_increment(jnp.zeros([], dt)),
              None if dt is jnp.int32 else bad))
  # estimators
  est = [jnp.zeros(2), jnp.zeros(2)]
  fun = lambda x: jnp.sum(x**2)
  for b, ok in ((optax.multi_normal, True), (lambda a, s: optax.multi_normal(a, s), False)):
    c.append(('measure_valued_jacobians with %s builder' % ('the normal' if ok else 'another'),
              lambda b=b: optax.measure_valued_jacobians(fun, est, b, jax.random.PRNGKey(0), 3), None if ok else ValueError))
  c.append(('join_schedules', lambda: optax.join_schedules(s2, [3])(2), None))
  return c


def arguments(ctx, part, parts):
  for lab, thunk, expected in cases()[part::parts]:
    ctx.states += 1
    ctx.transitions += 1
    ctx.traces += 1
    ctx.outcomes.add((lab.split('(')[0].split(' ')[0], expected is None))
    if expected is None:
      try:
        thunk()
      except Exception as e:  # pylint: disable=broad-except
        ctx.fail('%s is rejected: %s: %s' % (lab, type(e).__name__, str(e)[:200]))
      continue
    try:
      out = thunk()
    except expected:
      continue
    except Exception as e:  # pylint: disable=broad-except
      ctx.fail('%s raises %s instead of %s' % (lab, type(e).__name__, expected), error=str(e)[:300])
    ctx.fail('%s is accepted' % lab, result=str(out)[:300])


def UNITS(tier):
  T = tier == 'thorough'
  u = [('missing-' + n, missing, dict(cores=[n], depth=3 if T else 2)) for n in NEEDS]
  u += [('free-' + n, free, dict(cores=[n], depth=2 if T else 1, steps=4 if T else 3)) for n in FREE]
  u += [('arguments-%d' % i, arguments, dict(part=i, parts=8)) for i in range(8)]
  return u
