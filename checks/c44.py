"""C44: closed-loop training: exact linear dynamics, descent, rest at minima."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc import catalog

ASSUMPTIONS = ['starting points and problems outside the grids behave like those in them',
               'C04: a compiled loop and single calls agree']

SCH = lambda n: 0.3 / (1. + n)
tmap = jax.tree_util.tree_map


# ---- 1. linear optimisers on quadratics: the iterates are a matrix recursion ----
# state vector z = (x - c, buffers...); one step is z <- A_t z.

H = {
    'id': np.diag([1., 1.]),
    'ill': np.array([[1., .9], [.9, 1.]]),
    'stiff': np.diag([2., .01]),
    'saddle': np.array([[.5, 1.], [1., .2]]),
    'zero': np.diag([1., 0.]),
}


def mats(h, n):
  i, o = np.eye(2), np.zeros((2, 2))
  row = lambda *b: np.hstack(b)
  return i, o, row


def sgd_dyn(lr, h):
  return lambda t: np.eye(2) - (lr(t) if callable(lr) else lr) * h


def momentum_dyn(lr, d, h, nesterov=False):
  """z = (x, m): m' = h x + d m; x' = x - lr (m' or h x + d m')."""
  i = np.eye(2)
  def a(t):
    l = lr(t) if callable(lr) else lr
    m = np.hstack([h, d * i])
    step = np.hstack([h, 0 * i]) + d * m if nesterov else m
    return np.vstack([np.hstack([i, 0 * i]) - l * step, m])
  return a


def ema_dyn(lr, d, h, debias):
  """z = (x, m): m' = d m + (1-d) h x; x' = x - lr m'/(1-d^(t+1))."""
  i = np.eye(2)
  def a(t):
    m = np.hstack([(1 - d) * h, d * i])
    k = lr / (1 - d**(t + 1)) if debias else lr
    return np.vstack([np.hstack([i, 0 * i]) - k * m, m])
  return a


def decay_dyn(lr, wd, h):
  """Decay towards the origin, which is the minimum (c = 0)."""
  return lambda t: np.eye(2) - lr * (h + wd * np.eye(2))


def multi_dyn(lr, d, k, h, mean=True):
  """z = (x, m, acc)."""
  i, o = np.eye(2), np.zeros((2, 2))
  def a(t):
    acc = np.hstack([h, o, i])
    if t % k < k - 1:
      return np.vstack([np.hstack([i, o, o]), np.hstack([o, i, o]), acc])
    g = acc / k if mean else acc
    m = g + np.hstack([o, d * i, o])
    return np.vstack([np.hstack([i, o, o]) - lr * m, m, np.zeros((2, 6))])
  return a


def every_dyn(lr, k, h):
  """z = (x, acc): like summed accumulation."""
  i, o = np.eye(2), np.zeros((2, 2))
  def a(t):
    acc = np.hstack([h, i])
    if t % k < k - 1:
      return np.vstack([np.hstack([i, o]), acc])
    return np.vstack([np.hstack([i, o]) - lr * acc, np.zeros((2, 4))])
  return a


def look_dyn(lr, k, s, h):
  """z = (fast, slow); the gradient is taken at the fast weights."""
  i, o = np.eye(2), np.zeros((2, 2))
  def a(t):
    fast = np.hstack([i - lr * h, o])
    if t % k < k - 1:
      return np.vstack([fast, np.hstack([o, i])])
    slow = (1 - s) * np.hstack([o, i]) + s * fast
    return np.vstack([slow, slow])
  return a


def masked_dyn(lr, h):
  """Only the first coordinate is transformed; the second gets the raw gradient, both scaled."""
  return lambda t: np.eye(2) - np.diag([2. * lr, lr]) @ h


LINEAR = {
    # name: (transformation, dynamics(h), extra buffers)
    'sgd': (lambda: optax.sgd(.3), lambda h: sgd_dyn(.3, h), 0),
    'sgd_sched': (lambda: optax.sgd(SCH), lambda h: sgd_dyn(lambda t: .3 / (1. + t), h), 0),
    'sgd_poly': (lambda: optax.sgd(optax.linear_schedule(.5, .1, 10, 3)),
                 lambda h: sgd_dyn(lambda t: .1 + .4 * (1 - min(max(t - 3, 0), 10) / 10), h), 0),
    'momentum': (lambda: optax.sgd(.1, .9), lambda h: momentum_dyn(.1, .9, h), 1),
    'nesterov': (lambda: optax.sgd(.1, .9, True), lambda h: momentum_dyn(.1, .9, h, True), 1),
    'momentum_sched': (lambda: optax.sgd(SCH, .5), lambda h: momentum_dyn(lambda t: .3 / (1. + t), .5, h), 1),
    'ema': (lambda: optax.chain(optax.ema(.8), optax.scale(-.2)), lambda h: ema_dyn(.2, .8, h, True), 1),
    'ema_raw': (lambda: optax.chain(optax.ema(.8, False), optax.scale(-.2)), lambda h: ema_dyn(.2, .8, h, False), 1),
    'decay': (lambda: optax.chain(optax.add_decayed_weights(.3), optax.sgd(.2)), lambda h: decay_dyn(.2, .3, h), 0),
    'multi': (lambda: optax.MultiSteps(optax.sgd(.2, .5), 3).gradient_transformation(), lambda h: multi_dyn(.2, .5, 3, h), 2),
    'multi_sum': (lambda: optax.MultiSteps(optax.sgd(.1), 2, False).gradient_transformation(), lambda h: multi_dyn(.1, 0., 2, h, False), 2),
    'every': (lambda: optax.chain(optax.apply_every(3), optax.scale(-.1)), lambda h: every_dyn(.1, 3, h), 1),
    'look': (lambda: optax.lookahead(optax.sgd(.3), 3, .5), lambda h: look_dyn(.3, 3, .5, h), 'slow'),
    'look_one': (lambda: optax.lookahead(optax.sgd(.3), 1, .25), lambda h: look_dyn(.3, 1, .25, h), 'slow'),
    'masked': (lambda: optax.chain(optax.masked(optax.scale(2.), {'x': True, 'y': False}), optax.sgd(.1)), lambda h: masked_dyn(.1, h), 0),
    'finite': (lambda: optax.apply_if_finite(optax.sgd(.1, .9), 2), lambda h: momentum_dyn(.1, .9, h), 1),
    'flat': (lambda: optax.flatten(optax.sgd(.1, .9, True)), lambda h: momentum_dyn(.1, .9, h, True), 1),
    'inject': (lambda: optax.inject_hyperparams(optax.sgd)(learning_rate=SCH, momentum=.5),
               lambda h: momentum_dyn(lambda t: .3 / (2. + t), .5, h), 1),
}

STARTS = [np.array(s) for s in itertools.product((-1., 0., 2.), (-.5, 0., 3.))] + [np.array([1e3, -1e-3])]


def linear(ctx, name, steps):
  # Schedules of a 32-bit count are computed in single precision.
  tol = 1e-5 if any(x in name for x in ('sched', 'poly', 'inject')) else 1e-8
  for hn, h in H.items():
    for c in ((np.zeros(2),) if name == 'decay' else (np.zeros(2), np.array([.7, -1.1]))):
      make, dyn, extra = LINEAR[name]
      tx, a = make(), dyn(h)
      hj, cj = jnp.asarray(h), jnp.asarray(c)
      def loss(p):
        v = jnp.stack([p['x'], p['y'][0]]) - cj
        return .5 * v @ hj @ v
      def train(x0):
        p = {'x': x0[0], 'y': x0[1:]}
        if extra == 'slow':
          p = optax.LookaheadParams.init_synced(p)
        def body(ps, _):
          p, s = ps
          u, s = tx.update(jax.grad(loss)(p.fast if extra == 'slow' else p), s, p)
          p = optax.apply_updates(p, u)
          return (p, s), p
        (_, _), ps = jax.lax.scan(body, (p, tx.init(p)), None, length=steps)
        if extra == 'slow':
          return jnp.stack([ps.fast['x'], ps.fast['y'][:, 0], ps.slow['x'], ps.slow['y'][:, 0]], 1)
        return jnp.stack([ps['x'], ps['y'][:, 0]], 1)
      got = np.asarray(jax.jit(jax.vmap(train))(jnp.asarray(np.stack(STARTS))))
      for i, x0 in enumerate(STARTS):
        n = 1 if extra == 'slow' else extra
        z = np.concatenate([x0 - c] + [x0 - c if extra == 'slow' else np.zeros(2)] * n)
        size = 1.
        for t in range(steps):
          z = a(t) @ z
          size = max(size, np.abs(z).max())
          want = np.concatenate([z[:2] + c, z[2:] + c]) if extra == 'slow' else z[:2] + c
          ctx.states += 1
          ctx.transitions += 1
          if not np.allclose(got[i, t], want, rtol=tol, atol=tol * size):
            ctx.fail('%s on %s: after %d steps the parameters are %r, expected %r' % (name, hn, t + 1, got[i, t].tolist(), want.tolist()),
                     start=x0.tolist())
        ctx.traces += 1
        ctx.outcomes.add((hn, round(float(np.log10(np.abs(z[:2]).max() + 1e-30)), 1)))
  ctx.sample({'optimiser': name, 'steps': steps, 'starts': len(STARTS), 'matrices': sorted(H)})


# ---- 2. every optimiser minimises ----

XS = np.cos(np.arange(24.) * 1.9).reshape(8, 3)
LABEL = (np.arange(8) % 3 == 0) * 1.


def vec(p):
  return jnp.concatenate([p['w'].reshape(-1), p['b'][None]])


PROBLEMS = {
    # name: (loss, minimum)
    'bowl': (lambda p: .5 * jnp.sum((vec(p) - jnp.array([.5, -.3, .8]))**2 * jnp.array([1., .3, 2.])), 0.),
    'smoothabs': (lambda p: jnp.sum(jnp.log(jnp.cosh(vec(p) - jnp.array([.2, .4, -.6])))), 0.),
    'coupled': (lambda p: jnp.sum((jnp.asarray(XS) @ (vec(p) - jnp.array([.4, .5, -.2])))**2) / 8, 0.),
    'quartic': (lambda p: jnp.sum((vec(p) - jnp.array([.3, -.7, .6]))**4) + .1 * jnp.sum((vec(p) - jnp.array([.3, -.7, .6]))**2), 0.),
}
START2 = list(itertools.product((-1., .1, 1.5), repeat=3))


def lin(v, n):
  return optax.linear_schedule(v, v * 1e-3, n)


N = 400
OPT = {
    'adabelief': lambda: optax.adabelief(lin(.1, N)),
    'adagrad': lambda: optax.adagrad(.5),
    'adam': lambda: optax.adam(lin(.1, N)),
    'adamw': lambda: optax.adamw(lin(.1, N), weight_decay=0.),
    'fromage': lambda: optax.chain(optax.scale_by_trust_ratio(1e-3), optax.scale_by_schedule(lambda n: -lin(.1, N)(n))),
    'fromage_alias': lambda: optax.fromage(.05),
    'lamb': lambda: optax.lamb(lin(.1, N)),
    'radam': lambda: optax.radam(lin(.1, N)),
    'rmsprop': lambda: optax.rmsprop(lin(.1, N)),
    'rmsprop_centered': lambda: optax.rmsprop(lin(.1, N), centered=True, initial_scale=1.),
    'rmsprop_mom': lambda: optax.rmsprop(lin(.02, N), momentum=.8, nesterov=True),
    'sgd': lambda: optax.sgd(.1),
    'momentum': lambda: optax.sgd(lin(.05, N), .8),
    'nesterov': lambda: optax.sgd(lin(.05, N), .8, True),
    'sm3': lambda: optax.sm3(.3),
    'yogi': lambda: optax.yogi(lin(.1, N)),
    'noisy_sgd': lambda: optax.noisy_sgd(.1, eta=1e-4),
    'clipped': lambda: optax.chain(optax.clip(.5), optax.sgd(.2)),
    'normed': lambda: optax.chain(optax.clip_by_global_norm(.5), optax.sgd(.2)),
    'agc': lambda: optax.chain(optax.adaptive_grad_clip(.3), optax.sgd(.1)),
    'ema': lambda: optax.chain(optax.ema(.8), optax.scale(-.1)),
    'look_adam': lambda: optax.lookahead(optax.adam(lin(.2, N)), 5, .5),
    'look_reset': lambda: optax.lookahead(optax.sgd(.1, .5), 4, .6, True),
    'multi_adam': lambda: optax.MultiSteps(optax.adam(lin(.2, N // 2)), 2).gradient_transformation(),
    'finite_lamb': lambda: optax.apply_if_finite(optax.lamb(lin(.1, N)), 2),
    'flat_adam': lambda: optax.flatten(optax.adam(lin(.1, N))),
    'maybe_adam': lambda: catalog.maybe(optax.adam(lin(.1, N // 2)), lambda n: n % 2 == 0),
    'every_sgd': lambda: optax.chain(optax.apply_every(2), optax.sgd(.05)),
    'inject_adam': lambda: optax.inject_hyperparams(optax.adam)(learning_rate=lin(.1, N), b1=.8),
    'masked_pair': lambda: optax.chain(optax.masked(optax.adam(lin(.1, N)), {'b': False, 'w': True}),
                                       optax.masked(optax.sgd(.1), {'b': True, 'w': False})),
    'dpsgd': lambda: optax.dpsgd(.2, 3., 0., 0, momentum=.5),
}
LOOK = ('look_adam', 'look_reset')
SKIP_UPDATE = ('maybe_adam',)  # passes the raw gradient through in between


def train(name, loss, n):
  tx = OPT[name]()
  look = name in LOOK
  def run(x0):
    p = {'b': x0[2], 'w': x0[:2].reshape(1, 2)}
    if look:
      p = optax.LookaheadParams.init_synced(p)
    def body(ps, t):
      p, s = ps
      g = jax.grad(loss)(p.fast if look else p)
      if name == 'dpsgd':
        g = tmap(lambda x: jnp.stack([x, x]), g)
      if name in SKIP_UPDATE:
        # only every other gradient may be followed
        g = tmap(lambda x: jnp.where(t % 2 == 0, x, 0.), g)
      u, s = tx.update(g, s, p)
      p = optax.apply_updates(p, u)
      return (p, s), loss(p.slow if look else p)
    (p, _), ls = jax.lax.scan(body, (p, tx.init(p)), jnp.arange(n))
    return ls
  return jax.jit(jax.vmap(run))


def minimise(ctx, name, factor):
  for pn, (loss, low) in PROBLEMS.items():
    ls = np.asarray(train(name, loss, N)(jnp.asarray(np.array(START2))))
    for i, x0 in enumerate(START2):
      first = float(loss({'b': jnp.asarray(x0[2]), 'w': jnp.asarray([x0[:2]])})) - low
      last = float(ls[i, -1]) - low
      ctx.states += N
      ctx.transitions += N
      ctx.traces += 1
      if not last <= factor * first + 1e-6:
        ctx.fail('%s on %s: the loss is %r after %d steps, from %r' % (name, pn, last, N, first), start=x0)
      if not np.isfinite(ls[i]).all():
        ctx.fail('%s on %s: the loss becomes %r' % (name, pn, ls[i].tolist()[:5]), start=x0)
      ctx.outcomes.add((pn, round(float(np.log10(abs(last) + 1e-30)))))
  ctx.sample({'optimiser': name, 'problems': sorted(PROBLEMS), 'starts': len(START2)})


# ---- 3. small steps descend; minima are points of rest ----

GRADS = [np.array(g) for g in itertools.product((-1e3, -1., -1e-3, 0., 1e-3, 1., 1e3), repeat=2)]
ELEMENTWISE = ['adabelief', 'adagrad', 'adam', 'adam_sched', 'radam', 'rmsprop', 'sgd', 'sm3', 'fromage', 'lamb_sched']


def descent(ctx, names):
  """The first update of every optimiser opposes the gradient, entry by entry."""
  for n in names:
    tx = catalog.make(n)
    p = {'k': jnp.array([.5, -.8]), 'm': jnp.array(.3)}
    if n == 'fromage':
      # Fromage also shrinks the parameters: the direction is p' sqrt(1 + lr^2) - p.
      after = lambda u: tmap(lambda x, y: (x + y) * np.sqrt(1 + .1**2) - x, p, u)
    else:
      after = lambda u: u
    f = jax.jit(lambda g: after(tx.update(g, tx.init(p), p)[0]))
    for g in GRADS:
      for m in (-2., 0., 1e-4):
        u = f({'k': jnp.asarray(g), 'm': jnp.asarray(m)})
        ctx.states += 1
        ctx.transitions += 1
        for a, b in ((np.asarray(u['k']), g), (np.asarray(u['m']), np.asarray(m))):
          a = np.where(np.abs(a) < 1e-15, 0., a)
          if not (np.sign(a) == -np.sign(b)).all():
            ctx.fail('%s: gradient %r gives the first update %r' % (n, b.tolist(), a.tolist()))
          ctx.traces += 1


def rest(ctx, names, steps):
  """Zero gradients from the start: the parameters never move (weight decay, noise and yogi apart)."""
  from mc.trees import Tree
  for n in names:
    for tn in ('mv', 'scalar', 'ranks'):
      sy = catalog.Sys(n, Tree(tn))
      if sy.skip():
        continue
      tx, p = catalog.make(n), sy.params()
      g = sy.grad([np.zeros_like(x) for x in sy.tree.vals(1)])
      s = tx.init(p)
      update = jax.jit(tx.update)
      for t in range(steps):
        u, s = update(g, s, p)
        ctx.states += 1
        ctx.transitions += 1
        for x in jax.tree_util.tree_leaves(u):
          if np.asarray(x).any():
            ctx.fail('%s moves at rest: %r at step %d' % (n, np.asarray(x).tolist(), t + 1), tree=tn)
      ctx.traces += 1


MOVES = ('add_decayed_weights', 'additive_weight_decay', 'adamw', 'lamb', 'chain_nested', 'apply_if_finite_p', 'masked', 'lookahead_reset',
         'fromage', 'yogi', 'scale_by_yogi', 'keep_params_nonnegative',
         'scale_by_radam_fast')  # its threshold is below 4, where the rectification is not defined


def UNITS(tier):
  T = tier == 'thorough'
  u = [('linear-' + n, linear, dict(name=n, steps=1000 if T else 120)) for n in LINEAR]
  u += [('minimise-' + n, minimise, dict(name=n, factor=FACTOR.get(n, 1e-2))) for n in OPT]
  u += [('descent-%d' % i, descent, dict(names=ELEMENTWISE[i::4])) for i in range(4)]
  still = [n for n in catalog.names(lack='rk') if n not in MOVES]
  u += [('rest-%d' % i, rest, dict(names=still[i::8], steps=40 if T else 8)) for i in range(8)]
  return u


# Layer-wise ratios slow down where a scalar parameter has to change sign.
FACTOR = {n: .95 for n in ('lamb', 'fromage_alias', 'agc', 'finite_lamb', 'yogi')}
