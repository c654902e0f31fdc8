"""C43: normalised optimisers never take a step longer than their known bound.

The entries of one vector leaf run through all histories of the alphabet at
once (entries do not influence one another: C42).
"""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

ASSUMPTIONS = ['C42: entries do not influence one another (except under the norm-based transformations, which get one history per run)',
               'bounds are exact in real arithmetic; 1e-6 (double) or 2e-3 (single precision) is allowed for rounding',
               'yogi is left out: see its known finding (C07)']

SCH = lambda n: 0.3 / (1. + n * n)


# ---- bounds: f(step, running maximum of |gradient|) ----

def weights(b, t):
  """Weights of steps 1..t in a bias-corrected moving average."""
  w = (1 - b) * b**np.arange(t - 1, -1, -1.)
  return w / w.sum()


def adam(b1=.9, b2=.999):
  """sup |m|/sqrt(v) over all histories (Cauchy-Schwarz; attained)."""
  return lambda t, big: float(np.sqrt(np.sum(weights(b1, t)**2 / weights(b2, t))))


def radam(b1=.9, b2=.999, threshold=5.):
  ro_inf = 2 / (1 - b2) - 1
  def f(t, big):
    ro = ro_inf - 2 * t * b2**t / (1 - b2**t)
    if ro >= threshold:
      return np.sqrt((ro - 4) * (ro - 2) * ro_inf / ((ro_inf - 4) * (ro_inf - 2) * ro)) * adam(b1, b2)(t, big)
    return big
  return f


def geom(d, t):
  return sum(d**i for i in range(t))


def momentum(f, d, nesterov=False):
  """A trace over steps bounded by f."""
  def g(t, big):
    s = sum(d**(t - i) * f(i, big) for i in range(1, t + 1))
    return f(t, big) + d * s if nesterov else s
  return g


def scaled(f, lr):
  return lambda t, big: (lr(t - 1) if callable(lr) else lr) * f(t, big)


def stddev(d):
  def f(t, big):
    p, w = d**t, 1 - d
    if p < 1e-5:
      return np.inf  # the variance is lost to rounding
    return float(np.sqrt((p + w) / (w * p)))
  return f


def every(k, f):
  """Emitted every k steps only."""
  return lambda t, big: f(t // k, big) if t % k == 0 else 0.


MAXG = lambda t, big: big
ONE = lambda t, big: 1.
ACCUM = lambda d: (lambda t, big: float(1 / np.sqrt(1 - d)))

ENTRY = {
    # name: (constructor, bound)
    'scale_by_adam': (lambda: optax.scale_by_adam(), adam()),
    'scale_by_adam_fast': (lambda: optax.scale_by_adam(.5, .6), adam(.5, .6)),
    'scale_by_adam_equal': (lambda: optax.scale_by_adam(.9, .9, 0., 1e-30), adam(.9, .9)),
    'scale_by_adam_nomom': (lambda: optax.scale_by_adam(0., .99, eps_root=1e-12), adam(0., .99)),
    'adam': (lambda: optax.adam(.1), scaled(adam(), .1)),
    'adam_sched': (lambda: optax.adam(SCH, .8, .9), scaled(adam(.8, .9), SCH)),
    'adamw_nodecay': (lambda: optax.adamw(.1, weight_decay=0.), scaled(adam(), .1)),
    'multi_adam': (lambda: optax.MultiSteps(optax.adam(.1), 2).gradient_transformation(), every(2, scaled(adam(), .1))),
    'finite_adam': (lambda: optax.apply_if_finite(optax.adam(.1, .5, .6), 1), scaled(adam(.5, .6), .1)),
    'flat_adam': (lambda: optax.flatten(optax.adam(.1, .5, .6)), scaled(adam(.5, .6), .1)),
    'inject_adam': (lambda: optax.inject_hyperparams(optax.adam)(learning_rate=SCH, b1=.5, b2=lambda n: .6), scaled(adam(.5, .6), SCH)),
    'masked_adam': (lambda: optax.masked(optax.adam(.1), True), scaled(adam(), .1)),
    'clip_adam': (lambda: optax.chain(optax.clip(2.), optax.scale_by_adam(.5, .6), optax.scale(-.2)), scaled(adam(.5, .6), .2)),
    'adam_trace': (lambda: optax.chain(optax.scale_by_adam(.5, .6), optax.trace(.7)), momentum(adam(.5, .6), .7)),
    'scale_by_radam': (lambda: optax.scale_by_radam(), radam()),
    'scale_by_radam_fast': (lambda: optax.scale_by_radam(.5, .9, threshold=4.5), radam(.5, .9, 4.5)),
    'radam': (lambda: optax.radam(SCH, .5, .9), scaled(radam(.5, .9), SCH)),
    'scale_by_rms': (lambda: optax.scale_by_rms(), ACCUM(.9)),
    'scale_by_rms_init': (lambda: optax.scale_by_rms(.5, 0., 1.), ACCUM(.5)),
    'rmsprop': (lambda: optax.rmsprop(.1), scaled(ACCUM(.9), .1)),
    'rmsprop_mom': (lambda: optax.rmsprop(.1, .8, momentum=.7), scaled(momentum(ACCUM(.8), .7), .1)),
    'rmsprop_nes': (lambda: optax.rmsprop(.1, .8, momentum=.7, nesterov=True), scaled(momentum(ACCUM(.8), .7, True), .1)),
    'scale_by_stddev': (lambda: optax.scale_by_stddev(), stddev(.9)),
    'rmsprop_centered': (lambda: optax.rmsprop(SCH, .6, centered=True), scaled(stddev(.6), SCH)),
    'scale_by_rss': (lambda: optax.scale_by_rss(), ONE),
    'scale_by_rss_zero': (lambda: optax.scale_by_rss(0., 0.), ONE),
    'adagrad': (lambda: optax.adagrad(.1), scaled(ONE, .1)),
    'scale_by_sm3': (lambda: optax.scale_by_sm3(), lambda t, big: 1 - .9**t),
    'scale_by_sm3_ema': (lambda: optax.scale_by_sm3(0., .8), ACCUM(.8)),
    'sm3': (lambda: optax.sm3(.1), scaled(ONE, .1)),
    'clip': (lambda: optax.clip(.7), lambda t, big: np.minimum(.7, big)),
    'clip_trace': (lambda: optax.chain(optax.clip(.7), optax.trace(.9)), momentum(lambda t, big: np.minimum(.7, big), .9)),
    'trace': (lambda: optax.trace(.9), momentum(MAXG, .9)),
    'trace_nes': (lambda: optax.trace(.9, True), momentum(MAXG, .9, True)),
    'sgd': (lambda: optax.sgd(SCH, .5), lambda t, big: SCH(t - 1) * geom(.5, t) * big),
    'ema': (lambda: optax.ema(.9), MAXG),
    'ema_raw': (lambda: optax.ema(.9, False), lambda t, big: (1 - .9**t) * big),
    'apply_every': (lambda: optax.apply_every(3), lambda t, big: 3 * big),
}

LETTERS = {
    64: [0., 1., -1., 1e-3, -1e5, 1e70, -1e-40],
    32: [0., 1., -1., 1e-3, -1e5, 1e17, -1e-12],
}


def check(ctx, name, u, bound, tol, hist):
  over = np.abs(u) - np.broadcast_to(bound, u.shape) * (1 + tol) - 1e-300
  bad = ~(over <= 0)
  if bad.any():
    i = int(np.argmax(bad))
    ctx.fail('%s: a step of %r exceeds the bound %r' % (name, float(u[i]), float(np.broadcast_to(bound, u.shape)[i])),
             history=[float(h[i]) for h in hist])
  with np.errstate(all='ignore'):
    r = np.abs(u) / np.broadcast_to(bound, u.shape)
  r = r[np.isfinite(r)]
  return float(r.max()) if r.size else 0.


def entry(ctx, names, depth, bits, nletters):
  """All histories of `depth` letters, one per entry of a vector."""
  letters = LETTERS[bits][:nletters]
  dt = jnp.float64 if bits == 64 else jnp.float32
  grid = np.array(np.meshgrid(*[letters] * depth, indexing='ij')).reshape(depth, -1)
  for name in names:
    tx, bound = ENTRY[name][0](), ENTRY[name][1]
    s = tx.init(jnp.ones(grid.shape[1], dt))
    update = jax.jit(tx.update)
    big, top = np.zeros(grid.shape[1]), 0.
    for t in range(1, depth + 1):
      g = jnp.asarray(grid[t - 1], dt)
      u, s = update(g, s, jnp.ones(grid.shape[1], dt))
      big = np.maximum(big, np.abs(np.asarray(g, np.float64)))
      top = max(top, check(ctx, name, np.asarray(u, np.float64), bound(t, big), 1e-6 if bits == 64 else 2e-3, grid[:t]))
      ctx.states += len(letters)**t
      ctx.transitions += len(letters)**t
    ctx.traces += grid.shape[1]
    ctx.outcomes.add((name, round(top, 2)))
    ctx.sample({'transformation': name, 'histories': int(grid.shape[1]), 'longest step / bound': top})


def worst(ctx, names, steps, bits):
  """The worst histories for given decays (the bounds are attained), at all scales, with a burst or a pause inside."""
  dt = jnp.float64 if bits == 64 else jnp.float32
  scales = [1., 1e-3, 1e4] if bits == 32 else [1., 1e-3, 1e4, 1e40]
  for name in names:
    tx, bound = ENTRY[name][0](), ENTRY[name][1]
    rows = []
    for b1, b2 in itertools.product((0., .5, .8, .9), (.6, .9, .99, .999)):
      for upto in (steps, steps // 2, 7):
        n = np.arange(upto)
        h = (b1 + 1e-9)**(upto - 1. - n) / b2**(upto - 1. - n)
        h = np.concatenate([h / np.abs(h).max(), np.ones(steps - upto)])
        for sc in scales:
          rows.append(h * sc)
          pause = h * sc
          pause[steps // 3:steps // 2] = 0.
          rows.append(pause)
          rows.append(h * sc * (-1.)**np.arange(steps))
          burst = np.full(steps, 1e-6 * sc)
          burst[upto - 1] = sc
          rows.append(burst)
          rows.append(np.linspace(sc, 2 * sc, steps))
    grid = np.stack(rows, 1)
    s = tx.init(jnp.ones(grid.shape[1], dt))
    update = jax.jit(tx.update)
    big, top = np.zeros(grid.shape[1]), 0.
    for t in range(1, steps + 1):
      g = jnp.asarray(grid[t - 1], dt)
      u, s = update(g, s, jnp.ones(grid.shape[1], dt))
      big = np.maximum(big, np.abs(np.asarray(g, np.float64)))
      top = max(top, check(ctx, name, np.asarray(u, np.float64), bound(t, big), 1e-6 if bits == 64 else 2e-3, grid[:t]))
      ctx.states += grid.shape[1]
      ctx.transitions += grid.shape[1]
    ctx.traces += grid.shape[1]
    ctx.outcomes.add((name, 'worst', round(top, 2)))
    ctx.sample({'transformation': name, 'steps': steps, 'longest step / bound': top})


def regret(ctx, depth, bits):
  """Adagrad's steps are summable: sum_t u_t^2 <= log(S_T / S_0)."""
  letters = LETTERS[bits]
  dt = jnp.float64 if bits == 64 else jnp.float32
  grid = np.array(np.meshgrid(*[letters] * depth, indexing='ij')).reshape(depth, -1)
  for a0 in (.1, 1., 1e-4):
    for tx, lr in ((optax.scale_by_rss(a0), 1.), (optax.adagrad(.2, a0), .2)):
      s = tx.init(jnp.ones(grid.shape[1], dt))
      total, acc = np.zeros(grid.shape[1]), np.full(grid.shape[1], a0)
      for t in range(depth):
        u, s = jax.jit(tx.update)(jnp.asarray(grid[t], dt), s)
        total += (np.asarray(u, np.float64) / lr)**2
        acc += grid[t]**2
        bad = ~(total <= np.log(acc / a0) * (1 + 1e-5) + 1e-6)
        if bad.any():
          i = int(np.argmax(bad))
          ctx.fail('adagrad: squared steps sum to %r, more than log(S/S0) = %r' % (float(total[i]), float(np.log(acc[i] / a0))),
                   history=[float(x) for x in grid[:t + 1, i]])
        ctx.states += grid.shape[1]
        ctx.transitions += grid.shape[1]
      ctx.traces += grid.shape[1]


# ---- norms ----

GL = {'0': 0., 'a': 1., '-': -.7, 'L': 1e6, 't': 1e-5, 'H': 1e12}


def gtree(k, f, dt):
  n = np.cos(np.arange(4.) * 1.3 + k).reshape(2, 2)
  m = np.sin(np.arange(3.) * 1.7 + k)
  return {'s': jnp.asarray(np.cos(k + .5) * f, dt), 'v': jnp.asarray(m * f, dt), 'w': jnp.asarray(n * f, dt)}


def norm(x):
  return float(np.sqrt(np.sum(np.asarray(x, np.float64)**2)))


def tnorm(t):
  return float(np.sqrt(sum(norm(x)**2 for x in jax.tree_util.tree_leaves(t))))


def leafnorms(t):
  return np.array([norm(x) for x in jax.tree_util.tree_leaves(t)])


NORM = {
    'clip_by_global_norm': (lambda: optax.clip_by_global_norm(1.3), lambda t, u, p, q: [(tnorm(u), 1.3)]),
    'norm_then_momentum': (lambda: optax.chain(optax.clip_by_global_norm(1.3), optax.sgd(.1, .8)),
                           lambda t, u, p, q: [(tnorm(u), .13 * geom(.8, t))]),
    'norm_then_nesterov': (lambda: optax.chain(optax.clip_by_global_norm(1.3), optax.sgd(.1, .8, True)),
                           lambda t, u, p, q: [(tnorm(u), .13 * geom(.8, t + 1))]),
    'norm_then_ema': (lambda: optax.chain(optax.clip_by_global_norm(1.3), optax.ema(.8)), lambda t, u, p, q: [(tnorm(u), 1.3)]),
    'norm_multi': (lambda: optax.MultiSteps(optax.chain(optax.clip_by_global_norm(1.3), optax.scale(-1.)), 2).gradient_transformation(),
                   lambda t, u, p, q: [(tnorm(u), 1.3 if t % 2 == 0 else 0.)]),
    'norm_flat': (lambda: optax.flatten(optax.clip_by_global_norm(1.3)), lambda t, u, p, q: [(tnorm(u), 1.3)]),
    'norm_masked': (lambda: optax.masked(optax.clip_by_global_norm(1.3), {'s': False, 'v': False, 'w': True}), lambda t, u, p, q: [(norm(u['w']), 1.3)]),
    'trust': (lambda: optax.scale_by_trust_ratio(), lambda t, u, p, q: zip(leafnorms(u), leafnorms(p))),
    'trust_min': (lambda: optax.scale_by_trust_ratio(.5), lambda t, u, p, q: zip(leafnorms(u), np.maximum(leafnorms(p), .5))),
    'lamb': (lambda: optax.lamb(.1), lambda t, u, p, q: zip(leafnorms(u), .1 * leafnorms(p))),
    'lamb_decay': (lambda: optax.lamb(SCH, weight_decay=.1), lambda t, u, p, q: zip(leafnorms(u), SCH(t - 1) * leafnorms(p))),
    'fromage': (lambda: optax.fromage(.3), lambda t, u, p, q: zip(leafnorms(q), 1.3 / np.sqrt(1.09) * leafnorms(p))),
    'agc': (lambda: optax.adaptive_grad_clip(.3), lambda t, u, p, q: [
        (norm(u[k]), .3 * max(norm(p[k]), 1e-3)) for k in 'sv'] + [(norm(u['w'][:, i]), .3 * max(norm(p['w'][:, i]), 1e-3)) for i in range(2)]),
    'sm3_matrix': (lambda: optax.scale_by_sm3(0.), lambda t, u, p, q: [(float(np.abs(x).max()), 1.) for x in jax.tree_util.tree_leaves(u)]),
    'sm3_matrix_ema': (lambda: optax.scale_by_sm3(0., .8), lambda t, u, p, q: [
        (float(np.abs(x).max()), .2**-.5) for x in jax.tree_util.tree_leaves(u)]),
    'nonneg': (lambda: optax.chain(optax.sgd(.1), optax.keep_params_nonnegative()), lambda t, u, p, q: [
        (float(np.max(-np.asarray(x))), 0.) for x in jax.tree_util.tree_leaves(q)]),
}
ZERO_OK = ('trust', 'trust_min', 'lamb', 'lamb_decay', 'fromage')


def norms(ctx, names, depth, bits):
  """Closed loop: all histories, one per run."""
  dt = jnp.float64 if bits == 64 else jnp.float32
  tol = 1e-6 if bits == 64 else 2e-3
  for name in names:
    tx, bounds = NORM[name][0](), NORM[name][1]
    update = jax.jit(tx.update)
    p0 = jax.tree_util.tree_map(lambda x: jnp.abs(x) * .8 + .1, gtree(3, 1., dt))
    top = [0.]
    def go(p, s, t, hist):
      if t > depth:
        ctx.traces += 1
        return
      for l, f in GL.items():
        u, s2 = update(gtree(t, f, dt), s, p)
        q = optax.apply_updates(p, u)
        ctx.states += 1
        ctx.transitions += 1
        un, pn, qn = [jax.tree_util.tree_map(np.asarray, x) for x in (u, p, q)]
        for got, b in bounds(t, un, pn, qn):
          slack = 1e-12 if bits == 64 else 1e-6
          # A leaf at zero is moved by the plain update.
          if name in ZERO_OK and min(leafnorms(p)) < 1e-6:
            continue
          if not got <= b * (1 + tol) + slack:
            ctx.fail('%s: %r exceeds %r at step %d' % (name, got, b, t), history=hist + l)
          top[0] = max(top[0], got / b if b else 0.)
        go(q, s2, t + 1, hist + l)
    go(p0, tx.init(p0), 1, '')
    ctx.outcomes.add((name, round(top[0], 2)))
    ctx.sample({'transformation': name, 'longest step / bound': top[0]})


def private(ctx, depth):
  """Without noise, an aggregate is no longer than the clipping norm, nor sensitive to one example beyond 2C/n."""
  c = 1.3
  for n in (1, 2, 3):
    tx = optax.differentially_private_aggregate(c, 0., 0)
    opt = optax.dpsgd(.1, c, 0., 0, momentum=.8)
    p = gtree(3, 1., jnp.float64)
    update, step = jax.jit(tx.update), jax.jit(opt.update)
    def batch(ls, t):
      return jax.tree_util.tree_map(lambda *x: jnp.stack(x), *[gtree(t + 5 * i, GL[l], jnp.float64) for i, l in enumerate(ls)])
    base = {}
    for ls in itertools.product(GL, repeat=n):
      u, _ = update(batch(ls, 1), tx.init(p))
      base[ls] = u
      ctx.states += 1
      ctx.transitions += 1
      if not tnorm(u) <= c * (1 + 1e-9):
        ctx.fail('an aggregate of norm %r exceeds the clipping norm %r' % (tnorm(u), c), batch=ls)
    for a in base:
      for i in range(n):
        for l in GL:
          b = a[:i] + (l,) + a[i + 1:]
          d = tnorm(jax.tree_util.tree_map(lambda x, y: x - y, base[a], base[b]))
          ctx.transitions += 1
          if not d <= 2 * c / n * (1 + 1e-9):
            ctx.fail('replacing one of %d examples moves the aggregate by %r > 2C/n' % (n, d), batches=[a, b])
    def go(s, t):
      if t > depth:
        ctx.traces += 1
        return
      for ls in itertools.product('0LH-', repeat=n):
        u, s2 = step(batch(ls, t), s, p)
        ctx.states += 1
        ctx.transitions += 1
        if not tnorm(u) <= .1 * c * geom(.8, t) * (1 + 1e-9):
          ctx.fail('dpsgd takes a step of %r' % tnorm(u), batch=ls)
        go(s2, t + 1)
    if n < 3:
      go(opt.init(p), 1)


def look(ctx, depth):
  """Slow weights move by at most the slow step of what the fast optimiser can."""
  for k, sl in ((2, .5), (3, .3), (1, 1.)):
    tx = optax.lookahead(optax.adam(.1, .5, .6), k, sl)
    f = scaled(adam(.5, .6), .1)
    update = jax.jit(tx.update)
    grid = np.array(np.meshgrid(*[LETTERS[64][:5]] * depth, indexing='ij')).reshape(depth, -1)
    p = optax.LookaheadParams(fast=jnp.ones(grid.shape[1]), slow=jnp.ones(grid.shape[1]))
    s = tx.init(p)
    room = 0.
    for t in range(1, depth + 1):
      u, s = update(jnp.asarray(grid[t - 1]), s, p)
      p = optax.apply_updates(p, u)
      room += f(t, 0.)
      slow, fast = np.abs(np.asarray(u.slow)), np.abs(np.asarray(p.fast) - np.asarray(p.slow))
      ctx.states += grid.shape[1]
      ctx.transitions += grid.shape[1]
      lim = sl * room if t % k == 0 else 0.
      if not (slow <= lim * (1 + 1e-9) + 1e-15).all():
        ctx.fail('lookahead(%d, %g): slow weights moved by %r at step %d, more than %r' % (k, sl, slow.max(), t, lim))
      if t % k == 0:
        room = 0.
      if not (fast <= room * (1 + 1e-9) + 1e-15).all():
        ctx.fail('lookahead(%d, %g): fast weights are %r from the slow ones after step %d' % (k, sl, fast.max(), t))
    ctx.traces += grid.shape[1]


def UNITS(tier):
  T = tier == 'thorough'
  names = sorted(ENTRY)
  u = []
  for i in range(0, len(names), 4):
    ns = names[i:i + 4]
    # A variance as a difference of means is too inexact in single precision.
    ns32 = [n for n in ns if n not in ('scale_by_stddev', 'rmsprop_centered')]
    u += [('entry64-%s' % ns[0], entry, dict(names=ns, depth=7 if T else 6, bits=64, nletters=7 if T else 6)),
          ('entry32-%s' % ns[0], entry, dict(names=ns32, depth=6 if T else 5, bits=32, nletters=7, x64=False)),
          ('worst64-%s' % ns[0], worst, dict(names=ns, steps=400 if T else 60, bits=64)),
          ('worst32-%s' % ns[0], worst, dict(names=ns32, steps=200 if T else 40, bits=32, x64=False))]
  for i, n in enumerate(sorted(NORM)):
    u += [('norms64-%s' % n, norms, dict(names=[n], depth=5 if T else 4, bits=64)),
          ('norms32-%s' % n, norms, dict(names=[n], depth=3 if T else 2, bits=32, x64=False))]
  u += [('regret', regret, dict(depth=6 if T else 5, bits=64)),
        ('private', private, dict(depth=3 if T else 2)),
        ('lookahead', look, dict(depth=7 if T else 6))]
  return u
