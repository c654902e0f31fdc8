"""C24: elementary schedules match their closed forms at every step."""
import itertools
import math

import jax
import jax.numpy as jnp
import numpy as np
import optax

ASSUMPTIONS = ['schedule parameters outside the grids behave like those in them']

FAR = [50, 99, 100, 101, 1000, 10**6, 2**24, 2**24 + 1, 10**9, 2**31 - 2, 2**31 - 1]


def compare(ctx, label, f, model, near, eager_steps=None, rtol=1e-9, atol=1e-12, far=None, narrow=True):
  """Every step up to `near`, and far ones; compiled, batched and eagerly."""
  ns = list(range(near)) + [n for n in (FAR if far is None else far) if n >= near]
  with np.errstate(all='ignore'):
    e = np.array([float(model(n)) for n in ns])
  batch = jnp.asarray(ns, jnp.int64 if jax.config.jax_enable_x64 else jnp.int32)
  fast = jax.jit(jax.vmap(lambda n: jnp.asarray(f(n), float) * jnp.ones(())))
  got = {'compiled': fast(batch)}
  if narrow and jax.config.jax_enable_x64:
    got['compiled, 32-bit step'] = fast(jnp.asarray(ns, jnp.int32))
  if eager_steps != 0:
    got['batched'] = jax.vmap(lambda n: jnp.asarray(f(n), float))(batch)
  scale = np.maximum(1., np.abs(e))
  for how, v in got.items():
    v = np.asarray(v, np.float64)
    ctx.transitions += len(ns)
    loose = (3e-6, 1e-6) if '32' in how else (0., 0.)  # 32-bit steps are divided in single precision
    bad = ~(np.abs(v - e) <= atol + loose[1] + (rtol + loose[0]) * scale)
    if bad.any():
      i = int(np.argmax(bad))
      ctx.fail('%s at step %d (%s): %r, expected %r' % (label, ns[i], how, float(v[i]), float(e[i])))
  if eager_steps:
    for i in eager_steps:
      if i < near:
        ctx.transitions += 1
        v = float(f(i))
        if not abs(v - e[i]) <= atol + rtol * scale[i]:
          ctx.fail('%s at step %d (Python integer): %r, expected %r' % (label, i, v, float(e[i])))
  ctx.states += len(ns)
  ctx.traces += 1
  ctx.outcomes.add((label, tuple(np.round(e[:near:3], 6))))
  ctx.sample({'schedule': label, 'steps': '0..%d and %s' % (near - 1, FAR[-2:])})


def poly_model(init, end, power, T, begin):
  def f(n):
    if T <= 0:
      return init
    c = min(max(n - max(begin, 0), 0), T)
    return (init - end) * (1 - c / T)**power + end if c < T else end + (init - end) * 0.**power
  return f


def poly(ctx, grid, **kw):
  for init, end, power, T, begin in grid:
    f = optax.polynomial_schedule(init, end, power, T, begin)
    compare(ctx, 'polynomial%s' % ((init, end, power, T, begin),), f, poly_model(init, end, power, T, begin),
            max(T, 0) + max(begin, 0) + 3, **kw)
    if power == 1:
      compare(ctx, 'linear%s' % ((init, end, T, begin),), optax.linear_schedule(init, end, T, begin),
              poly_model(init, end, 1, T, begin), max(T, 0) + max(begin, 0) + 3, **kw)


def exp_model(init, T, rate, begin, stair, end):
  def f(n):
    if T <= 0 or rate == 0:
      return init
    c = n - max(begin, 0)
    if c <= 0:
      v = init
    else:
      p = c // T if stair else c / T
      try:
        v = init * rate**p
      except OverflowError:
        v = math.inf
    if end is not None:
      v = max(v, end) if rate < 1 else min(v, end)
    return v
  return f


def expo(ctx, grid, **kw):
  for a in grid:
    init, T, rate, begin, stair, end = a
    far = None
    if rate > 1 and (end is None or init <= 0):
      far = [50]  # unbounded growth is evaluated as far as it is finite
    compare(ctx, 'exponential%s' % (a,), optax.exponential_decay(*a), exp_model(*a),
            3 * max(T, 1) + max(begin, 0) + 3, far=far, **kw)


def cosine(ctx, grid, **kw):
  for init, T, alpha in grid:
    compare(ctx, 'cosine%s' % ((init, T, alpha),), optax.cosine_decay_schedule(init, T, alpha),
            lambda n: init * ((1 - alpha) * 0.5 * (1 + math.cos(math.pi * min(n, T) / T)) + alpha), T + 3, **kw)
  for T in (0, -1, -7):
    try:
      optax.cosine_decay_schedule(1., T)
    except ValueError:
      continue
    ctx.fail('cosine decay over %d steps was accepted' % T)


def pc_model(init, bs):
  def f(n):
    v = init
    for b, s in bs.items():
      if n >= b:
        v *= s
    return v
  return f


def piecewise(ctx, grid, **kw):
  for init, bs in grid:
    compare(ctx, 'piecewise(%s, %s)' % (init, bs), optax.piecewise_constant_schedule(init, dict(bs)), pc_model(init, bs),
            max(list(bs) + [0]) + 4 if max(list(bs) + [0]) < 1000 else 5,
            far=FAR + [b + d for b in bs for d in (-1, 0, 1) if 0 <= b + d < 2**31], **kw)


def pc_rejects(ctx):
  for bad in ({1: -0.5}, {1: 0.5, 3: -1.}, {0: -1e-9}):
    for make in (lambda: optax.piecewise_constant_schedule(1., bad),):
      try:
        make()
      except ValueError:
        ctx.transitions += 1
        continue
      ctx.fail('negative factors %s were accepted' % (bad,))
  f = optax.piecewise_constant_schedule(0.7, None)
  for n in (0, 1, 10**9):
    if f(n) != 0.7:
      ctx.fail('piecewise constant without boundaries')
  for v in (0.3, 0, 2, -1.5):
    g = optax.constant_schedule(v)
    for n in list(range(20)) + FAR:
      ctx.transitions += 1
      if float(g(n)) != v or float(jax.jit(g)(n)) != np.float64(v):
        ctx.fail('constant_schedule(%s) at %d' % (v, n))
  ctx.states += 1
  ctx.traces += 1


def UNITS(tier):
  T = tier == 'thorough'
  u = [('constant', pc_rejects, {})]
  ends = ((1., 0.1), (0., 2.), (-0.5, 0.5), (3, 3), (1, 0))
  powers = (0.5, 1, 1.5, 2, 2.5, 3, 0)
  steps = tuple(range(-1, 14)) + (17, 25, 49, 100)
  begins = (-3, 0, 1, 2, 5, 20)
  pg = [(i, e, p, t, b) for (i, e), p, t, b in itertools.product(ends, powers, steps, begins)]
  if not T:
    pg = [g for k, g in enumerate(pg) if k % 4 == (g[3] + int(2 * g[2])) % 4]
  n = 32
  for i in range(n):
    u.append(('poly-%d' % i, poly, dict(grid=pg[i::n], eager_steps=0)))
  u.append(('poly-eager', poly, dict(grid=pg[::97], eager_steps=range(40))))
  for i in range(4):
    u.append(('poly32-%d' % i, poly, dict(grid=pg[i::36], rtol=2e-5, atol=2e-6, eager_steps=0, x64=False)))
  eg = [(i, t, r, b, s, e) for i, t, r, b, s, e in itertools.product(
      (1., 0.3), (-2, 0, 1, 2, 3, 4, 5, 6, 7, 10, 13), (0.5, 0.9, 1.0, 1.3, 0.), (-2, 0, 1, 3, 10), (False, True), (None, 'x'))]
  eg = [(i, t, r, b, s, None if e is None else (0.25 * i if r < 1 else 2.5 * i)) for i, t, r, b, s, e in eg]
  if not T:
    eg = [g for k, g in enumerate(eg) if k % 2 == g[1] % 2]
  # Bounds of either sign and zero, next to starts of either sign and zero; also bounds that hold from the start.
  eg += [(i, t, r, b, s, e) for i, t, r, b, s, e in itertools.product(
      (-1., 0., 1., -0.3), (1, 4), (0.5, 1.0, 1.5, -0.5), (0, 2), (False, True), (0., 0, -0.5, 0.4, 2.))
         if r > 0 or s]
  for i in range(16):
    u.append(('exp-%d' % i, expo, dict(grid=eg[i::16], eager_steps=0)))
  u.append(('exp-eager', expo, dict(grid=eg[::41], eager_steps=range(40))))
  for i in range(4):
    u.append(('exp32-%d' % i, expo, dict(grid=eg[i::24], rtol=2e-5, atol=2e-6, eager_steps=0, x64=False)))
  # Long staircases: each boundary lands on the right stair, compiled or not.
  sg = [(1., t, 0.5, b, True, None) for t in list(range(1, 1025 if T else 129)) + [1000, 4096, 10000]
        for b in ((0, 4) if T or t < 14 else ((0,) if t % 2 else (4,)))]
  for i in range(6):
    u.append(('stairs-%d' % i, stairs, dict(grid=sg[i::6])))
    u.append(('stairs32-%d' % i, stairs, dict(grid=sg[i::6], x64=False)))
  cg = list(itertools.product((1., 0.3, 2), tuple(range(1, 22)) + (49, 100, 1000), (0., 0.1, 1., 0.5)))
  if not T:
    cg = cg[::2]
  for i in range(6):
    u.append(('cosine-%d' % i, cosine, dict(grid=cg[i::6])))
  u.append(('cosine32', cosine, dict(grid=cg[::9], rtol=1e-5, atol=1e-6, x64=False)))
  bs = (0, 1, 2, 5, 8)
  fs = (0., 0.5, 1., 3.)
  pcs = [(1., {})]
  for k in (1, 2, 3):
    for b in itertools.permutations(bs, k) if k < 3 else itertools.combinations(bs, k):
      for f in itertools.product(fs, repeat=k) if k < 3 else itertools.product(fs[1:], repeat=k):
        pcs.append((0.7, dict(zip(b, f))))
  pcs += [(2, {3: 0.5}), (1., {10**6: 0.5, 2**31 - 1: 0.1}), (1., {100: 0.1, 200: 0.1, 300: 0.1}), (-1., {4: 2, 2: 3})]
  if not T:
    pcs = pcs[::2] + pcs[-4:]
  for i in range(8):
    u.append(('piecewise-%d' % i, piecewise, dict(grid=pcs[i::8], eager_steps=0)))
  u.append(('piecewise-eager', piecewise, dict(grid=pcs[::17], eager_steps=range(12))))
  u.append(('piecewise32', piecewise, dict(grid=pcs[::5], rtol=1e-5, atol=1e-6, eager_steps=0, x64=False)))
  return u


def stairs(ctx, grid):
  for init, t, rate, begin, _, _ in grid:
    f = optax.exponential_decay(init, t, rate, begin, True)
    top = min(40 * t, 4000) + begin
    ns = sorted(set([k * t + begin + d for k in range(40) for d in (-1, 0, 1)] + list(range(min(top, 200)))))
    ns = [n for n in ns if n >= 0]
    got = np.asarray(jax.jit(jax.vmap(f))(jnp.asarray(ns, jnp.int32)), np.float64)
    e = np.array([init * rate**max((n - begin) // t, 0) for n in ns])
    ctx.transitions += len(ns)
    if not np.allclose(got, e, rtol=1e-5, atol=0):
      i = int(np.argmax(np.abs(got / e - 1)))
      ctx.fail('stairs of %d from %d: step %d gives %r, expected %r' % (t, begin, ns[i], got[i], e[i]))
    for n in ns[:60:7]:
      if not np.allclose(float(f(n)), init * rate**max((n - begin) // t, 0), rtol=1e-5):
        ctx.fail('stairs of %d from %d: step %d (Python integer) gives %r' % (t, begin, n, float(f(n))))
    ctx.states += len(ns)
    ctx.traces += 1
