"""C25: composite schedules are their parts, switched at the right step."""
import itertools
import math

import jax
import jax.numpy as jnp
import numpy as np
import optax

from checks.c24 import compare, poly_model, exp_model, pc_model, FAR
from mc.std import pow2_counts

ASSUMPTIONS = ['schedule parameters outside the grids behave like those in them']


def cos_model(init, T, alpha):
  return lambda n: init * ((1 - alpha) * 0.5 * (1 + math.cos(math.pi * min(n, T) / T)) + alpha)


PARTS = {
    'lin': (lambda: optax.linear_schedule(0., 1., 3), poly_model(0., 1., 1, 3, 0)),
    'const': (lambda: optax.constant_schedule(0.37), lambda n: 0.37),
    'exp': (lambda: optax.exponential_decay(2., 2, 0.5, 1), exp_model(2., 2, 0.5, 1, False, None)),
    'stair': (lambda: optax.exponential_decay(1.5, 2, 0.5, 0, True), exp_model(1.5, 2, 0.5, 0, True, None)),
    'cos': (lambda: optax.cosine_decay_schedule(1.1, 4, 0.2), cos_model(1.1, 4, 0.2)),
    'pc': (lambda: optax.piecewise_constant_schedule(0.9, {1: 0.5, 3: 3.}), pc_model(0.9, {1: 0.5, 3: 3.})),
    'poly': (lambda: optax.polynomial_schedule(3., 1., 2.5, 4, 1), poly_model(3., 1., 2.5, 4, 1)),
    'steps': (lambda: lambda n: n * 1., lambda n: n * 1.),
}


def join_model(models, bounds):
  def f(n):
    which, start = 0, 0
    for i, b in enumerate(bounds):
      if n >= b:
        which, start = i + 1, b
    return models[which](n - start)
  return f


def joins(ctx, cases, **kw):
  for names, bounds in cases:
    f = optax.join_schedules([PARTS[n][0]() for n in names], list(bounds))
    compare(ctx, 'join(%s, %s)' % (names, bounds), f, join_model([PARTS[n][1] for n in names], bounds),
            (bounds[-1] if bounds else 0) + 10, **kw)


def warm_model(init, peak, warm, decay, end):
  alpha = end / peak
  return join_model([poly_model(init, peak, 1, warm, 0), cos_model(peak, decay - warm, alpha)], [warm])


def warm_cos(ctx, grid, **kw):
  for a in grid:
    compare(ctx, 'warmup_cosine%s' % (a,), optax.warmup_cosine_decay_schedule(*a), warm_model(*a), a[3] + 5, **kw)
    f = optax.warmup_cosine_decay_schedule(*a)
    # documented landmarks
    for n, v in ((0, a[0] if a[2] > 0 else a[1]), (a[2], a[1]), (a[3], a[4]), (a[3] + 10**6, a[4])):
      if abs(float(f(n)) - v) > 1e-6:
        ctx.fail('warmup_cosine%s at step %d: %r, expected %r' % (a, n, float(f(n)), v))


def warm_exp(ctx, grid, **kw):
  for a in grid:
    init, peak, warm, ts, rate, begin, stair, end = a
    mod = join_model([poly_model(init, peak, 1, warm, 0), exp_model(peak, ts, rate, begin, stair, end)], [warm])
    far = [50] if rate > 1 and end is None else None
    compare(ctx, 'warmup_exponential%s' % (a,), optax.warmup_exponential_decay_schedule(*a), mod, warm + begin + 3 * ts + 3, far=far, **kw)


def sgdr(ctx, cases, **kw):
  for cycles in cases:
    bounds = list(itertools.accumulate(c[3] for c in cycles))
    mods = [warm_model(*c) for c in cycles]
    f = optax.sgdr_schedule([dict(zip(('init_value', 'peak_value', 'warmup_steps', 'decay_steps', 'end_value'), c)) for c in cycles])
    compare(ctx, 'sgdr(%s)' % (cycles,), f, join_model(mods, bounds[:-1]), bounds[-1] + 5, **kw)


def interp_model(kind, init, bs):
  pts, v = [(0, init)], init
  for b in sorted(bs):
    v *= bs[b]
    if b == 0:
      pts = [(0, v)]
    else:
      pts.append((b, v))

  def f(n):
    if n >= pts[-1][0]:
      return pts[-1][1]
    for (a, x), (b, y) in zip(pts, pts[1:]):
      if a <= n < b:
        c = (n - a) / (b - a)
        if kind == 'linear':
          return x + (y - x) * c
        return y + (x - y) / 2 * (math.cos(math.pi * c) + 1)
  return f


def interp(ctx, cases, **kw):
  for kind, init, bs in cases:
    compare(ctx, 'interpolate(%s, %s, %s)' % (kind, init, bs), optax.piecewise_interpolate_schedule(kind, init, dict(bs) if bs else None),
            interp_model(kind, init, bs or {}), max(list(bs or {}) + [0]) + 4, **kw)


def onecycle(ctx, grid, **kw):
  for kind, T, peak, ps, pf, div, fin in grid:
    if kind == 'linear':
      keys = (int(ps * T), int(pf * T), T)
      bs = {keys[0]: div, keys[1]: 1. / div, T: 1. / fin}
      if len(bs) < 3 or list(keys) != sorted(keys):
        continue
      f = optax.linear_onecycle_schedule(T, peak, ps, pf, div, fin)
    else:
      keys = (int(ps * T), T)
      bs = {keys[0]: div, T: 1. / (div * fin)}
      if len(bs) < 2:
        continue
      f = optax.cosine_onecycle_schedule(T, peak, ps, div, fin)
    label = '%s_onecycle%s' % (kind, (T, peak, ps, pf, div, fin))
    compare(ctx, label, f, interp_model(kind, peak / div, bs), T + 4, **kw)
    marks = [(keys[0], peak), (T, peak / div / fin), (T + 10**6, peak / div / fin)]
    if keys[0]:
      marks.append((0, peak / div))
    if kind == 'linear':
      marks.append((keys[1], peak / div))
    for n, v in marks:
      ctx.transitions += 1
      if abs(float(f(n)) - v) > 1e-6 * max(1, abs(v)):
        ctx.fail('%s at step %d: %r, expected %r' % (label, n, float(f(n)), v))


def onecycle_defaults(ctx, tops, **kw):
  onecycle(ctx, [('linear', T, 1., 0.3, 0.85, 25., 1e4) for T in tops], **kw)
  onecycle(ctx, [('cosine', T, 1., 0.3, None, 25., 1e4) for T in tops], **kw)
  for T in tops:
    if T < 2:
      continue
    a, b = optax.linear_onecycle_schedule(T, 1.), optax.cosine_onecycle_schedule(T, 1.)
    for n in range(0, T + 2, max(1, T // 5)):
      mb = {int(0.3 * T): 25., int(0.85 * T): 1 / 25., T: 1e-4}
      if len(mb) < 3:
        continue
      if abs(float(a(n)) - interp_model('linear', 0.04, mb)(n)) > 1e-6:
        ctx.fail('the default linear one-cycle of %d steps at %d' % (T, n))
      if abs(float(b(n)) - interp_model('cosine', 0.04, {int(0.3 * T): 25., T: 1 / 25e4})(n)) > 1e-6:
        ctx.fail('the default cosine one-cycle of %d steps at %d' % (T, n))
      ctx.transitions += 2


def rejects(ctx):
  bad = [lambda: optax.linear_onecycle_schedule(0, 1.), lambda: optax.linear_onecycle_schedule(-3, 1.),
         lambda: optax.cosine_onecycle_schedule(0, 1.), lambda: optax.cosine_onecycle_schedule(-1, 1.),
         lambda: optax.piecewise_interpolate_schedule('linear', 1., {2: -0.5}),
         lambda: optax.piecewise_interpolate_schedule('cosine', 1., {1: 1., 2: -0.5}),
         lambda: optax.piecewise_interpolate_schedule('quadratic', 1., {2: 0.5}),
         lambda: optax.warmup_cosine_decay_schedule(0., 1., 5, 5), lambda: optax.warmup_cosine_decay_schedule(0., 1., 5, 3)]
  for i, b in enumerate(bad):
    ctx.transitions += 1
    try:
      b()
    except ValueError:
      continue
    ctx.fail('invalid composite schedule number %d was accepted' % i)
  ctx.states += 1
  ctx.traces += 1


def late(ctx, bounds):
  """Boundaries at and around every power of two, up to the largest counts."""
  for b in bounds:
    for gap in (1, 2, 1000):
      two = [b, b + gap] if b + gap <= 2**31 - 1 else [b]
      f = jax.jit(jax.vmap(optax.join_schedules([lambda n: -1 + 0 * n, lambda n: n, lambda n: n + 5000][:len(two) + 1], two)))
      steps = sorted({n for x in two for n in range(x - 3, x + 4) if 0 <= n <= 2**31 - 1})
      got = np.asarray(f(jnp.asarray(steps, jnp.int32)))
      want = [-1 if n < b else n - b if len(two) == 1 or n < b + gap else n - b - gap + 5000 for n in steps]
      eager = optax.join_schedules([lambda n: -1, lambda n: n], [b])
      for i, n in enumerate(steps):
        ctx.transitions += 1
        ctx.states += 1
        if got[i] != want[i]:
          ctx.fail('joined at %s: step %d gives %s instead of %s' % (two, n, got[i], want[i]))
        if gap == 1:
          e = int(eager(n if i % 2 else jnp.asarray(n, jnp.int32)))
          if e != (-1 if n < b else n - b):
            ctx.fail('joined at %d: step %d gives %s' % (b, n, e))
      ctx.traces += 1


def UNITS(tier):
  T = tier == 'thorough'
  u = [('rejects', rejects, {})]
  for i in range(4):
    u.append(('late-%d' % i, late, dict(bounds=pow2_counts(3)[i::4], x64=i % 2 == 0)))
  P = list(PARTS)
  js = [((a,), ()) for a in P] + [((a, b), (k,)) for a in P for b in P for k in (0, 1, 2, 3, 5)]
  bounds3 = [(i, j) for i in (0, 1, 2, 4) for j in (1, 2, 4, 5, 7) if i <= j]
  js3 = [((a, b, c), bd) for a in P for b in P for c in P for bd in bounds3]
  js4 = [(p, bd) for p in itertools.permutations(P, 4) for bd in ((1, 3, 4), (2, 2, 5), (0, 3, 9), (3, 6, 9))]
  js += js3 if T else js3[::23]
  js += js4 if T else js4[::131]
  n = 24 if not T else 96
  for i in range(n):
    u.append(('join-%d' % i, joins, dict(cases=js[i::n], eager_steps=0, narrow=T or i % 4 == 0)))
  u.append(('join-eager', joins, dict(cases=js[::61], eager_steps=range(12))))
  u.append(('join32', joins, dict(cases=js[::29], rtol=1e-5, atol=1e-6, eager_steps=0, x64=False)))
  wg = [(i, p, w, w + d, e) for (i, p, e) in ((0., 1., 0.), (0.1, 2., 0.3), (1., 0.5, 0.5), (0.2, 1., 1.5)) for w in (0, 1, 2, 3, 5, 10)
        for d in (1, 2, 3, 7, 20)]
  for i in range(6):
    u.append(('warmcos-%d' % i, warm_cos, dict(grid=wg[i::6], eager_steps=range(4))))
  u.append(('warmcos32', warm_cos, dict(grid=wg[::5], rtol=1e-5, atol=1e-6, eager_steps=0, x64=False)))
  xg = list(itertools.product((0., 0.3), (1., 2.), (0, 1, 3, 6), (1, 2, 5), (0.5, 1.2), (0, 2), (False, True), (None, 0.4, 1.5)))
  xg = [g for g in xg if g[7] is None or (g[4] < 1 and g[7] == 0.4) or (g[4] > 1 and g[7] == 1.5 and g[1] == 1.)]
  if not T:
    xg = xg[::2]
  for i in range(8):
    u.append(('warmexp-%d' % i, warm_exp, dict(grid=xg[i::8], eager_steps=0, narrow=T or i % 4 == 0)))
  cyc = [(0., 1., 2, 5, 0.), (0.1, 0.5, 0, 4, 0.1), (0.2, 2., 1, 3, 0.5), (0., 1., 3, 4, 1.), (1., 0.3, 1, 7, 0.)]
  sg = [[c] for c in cyc] + [list(p) for p in itertools.product(cyc, repeat=2)] + [list(p) for p in itertools.product(cyc, repeat=3)]
  sg += [[cyc[0]] * 4, [cyc[1], cyc[2]] * 3]
  if not T:
    sg = sg[:30] + sg[30::4]
  for i in range(8):
    u.append(('sgdr-%d' % i, sgdr, dict(cases=sg[i::8], eager_steps=0, narrow=T or i % 4 == 0)))
  u.append(('sgdr-eager', sgdr, dict(cases=sg[::11], eager_steps=range(10))))
  bs = [None, {}]
  for k in (1, 2, 3):
    for b in itertools.combinations((0, 1, 2, 5, 9), k):
      for f in itertools.product((0., 0.5, 3.), repeat=k):
        bs.append(dict(zip(b, f)))
  bs.append({7: 2., 3: 0.5})
  ig = [(k, i, b) for k in ('linear', 'cosine') for i in (1., 0.7) for b in bs]
  if not T:
    ig = ig[::2] + ig[-1:]
  for i in range(24):
    u.append(('interp-%d' % i, interp, dict(cases=ig[i::24], eager_steps=0, narrow=T or i % 4 == 0)))
  u.append(('interp-eager', interp, dict(cases=ig[::19], eager_steps=range(12))))
  u.append(('interp32', interp, dict(cases=ig[::7], rtol=1e-5, atol=1e-6, eager_steps=0, x64=False)))
  tops = list(range(1, 41)) + [50, 99, 100, 101, 1000]
  for i in range(5):
    u.append(('onecycle-%d' % i, onecycle_defaults, dict(tops=tops[i::5], eager_steps=0)))
  og = [('linear', t, p, a, b, d, f) for t in (3, 7, 10, 20, 33) for p in (1., 0.3) for a in (0.1, 0.3, 0.5) for b in (0.6, 0.85, 0.95)
        for d, f in ((25., 1e4), (2., 3.), (10., 1.))]
  og += [('cosine', t, p, a, None, d, f) for t in (2, 3, 7, 10, 20, 33) for p in (1., 0.3) for a in (0.1, 0.3, 0.5, 0.9)
         for d, f in ((25., 1e4), (2., 3.), (10., 1.))]
  if not T:
    og = og[::2]
  for i in range(8):
    u.append(('onecycles-%d' % i, onecycle, dict(grid=og[i::8], eager_steps=0, narrow=T or i % 4 == 0)))
  return u
