"""C40: derivatives of updates and of whole runs equal those of the formulas.

Code: exact Jacobians of all updates of a run by forward and reverse mode.
Reference: central differences of the float64 reference models.
"""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax
from optax._src import wrappers

from mc import models as m
from mc.trees import Tree, grads

ASSUMPTIONS = ['gradient values outside the alphabet behave like those in it',
               'central differences of the models are accurate to 1e-4 where the one-sided ones agree']

def second(p):
  """Masks all leaves but the second."""
  leaves, td = jax.tree_util.tree_flatten(p)
  return jax.tree_util.tree_unflatten(td, [i == 1 for i in range(len(leaves))])


class PerExample(m.M):
  """Clips each example (first axis) and averages."""

  def __init__(self, bound):
    self.bound = bound

  def init(self, p):
    return {}

  def update(self, g, s, p=None):
    n = [np.sqrt(sum((x[i]**2).sum() for x in g)) for i in range(len(g[0]))]
    return [sum(x[i] / max(k / self.bound, 1.) for i, k in enumerate(n)) / len(n) for x in g], s


IN = dict(learning_rate=.3)
AD = dict(b1=.6, b2=.7, eps=.05)
ONES = lambda k: {**k}


def held(factory, start):
  """Hyper-parameters that live in the state of the wrapper and are written there."""
  def make(**hps):
    tx = optax.inject_hyperparams(factory)(**{k: start for k in hps})
    def init(p):
      s = tx.init(p)
      return s._replace(hyperparams={**s.hyperparams, **{k: jnp.asarray(v) for k, v in hps.items()}})
    return optax.GradientTransformation(init, tx.update)
  return make


# (yogi is left out: its values are a known finding of C07.)
# label -> code factory, model factory, hyper-parameters to differentiate, letters
G = 'abc'
Z = 'azb'
CASES = {
    'scale': (lambda step_size: optax.scale(step_size), lambda step_size: m.Scale(step_size), dict(step_size=.5), Z),
    'trace': (optax.trace, m.Trace, dict(decay=.6), Z),
    'trace_nesterov': (lambda decay: optax.trace(decay, True), lambda decay: m.Trace(decay, True), dict(decay=.6), Z),
    'ema': (optax.ema, m.Ema, dict(decay=.6), Z),
    'ema_raw': (lambda decay: optax.ema(decay, False), lambda decay: m.Ema(decay, False), dict(decay=.6), Z),
    'rss': (lambda eps, iv: optax.scale_by_rss(iv, eps), lambda eps, iv: m.Rss(iv, eps), dict(eps=.05, iv=.3), Z),
    'rms': (lambda decay, eps, iv: optax.scale_by_rms(decay, eps, iv), lambda decay, eps, iv: m.Rms(decay, eps, iv), dict(decay=.6, eps=.05, iv=.3), Z),
    'stddev': (lambda decay, eps: optax.scale_by_stddev(decay, eps), lambda decay, eps: m.Stddev(decay, eps), dict(decay=.6, eps=.3), G),
    'adam': (optax.scale_by_adam, m.Adam, dict(AD), G),
    'adam_root': (lambda b1, b2, eps, eps_root: optax.scale_by_adam(b1, b2, eps, eps_root), m.Adam, dict(AD, eps_root=.1), Z),
    'belief': (lambda b1, b2, eps, eps_root: optax.scale_by_belief(b1, b2, eps, eps_root), m.Belief, dict(AD, eps_root=.1), Z),
    'radam': (lambda b1, b2, eps, eps_root: optax.scale_by_radam(b1, b2, eps, eps_root, 4.2),
              lambda b1, b2, eps, eps_root: m.Radam(b1, b2, eps, eps_root, 4.2), dict(b1=.6, b2=.9, eps=.05, eps_root=.1), 'ab'),
    'sm3': (lambda b1, b2, eps: optax.scale_by_sm3(b1, b2, eps), m.SM3, dict(b1=.6, b2=.7, eps=.05), G),
    'sm3_sum': (lambda b1, eps: optax.scale_by_sm3(b1, 1.0, eps), lambda b1, eps: m.SM3(b1, 1.0, eps), dict(b1=.6, eps=.05), G),
    'trust': (optax.scale_by_trust_ratio, m.TrustRatio, dict(), G),
    'trust_min': (lambda min_norm: optax.scale_by_trust_ratio(min_norm), m.TrustRatio, dict(min_norm=1.), Z),
    'decay': (optax.add_decayed_weights, lambda weight_decay: m.Decay(weight_decay), dict(weight_decay=.3), Z),
    'center': (optax.centralize, m.Centralize, dict(), Z),
    'clip': (optax.clip, lambda max_delta: m.Clip(max_delta), dict(max_delta=.5), Z),
    'clipnorm': (optax.clip_by_global_norm, lambda max_norm: m.ClipNorm(max_norm), dict(max_norm=1.2), 'absz'),
    'agc': (lambda clipping, eps: optax.adaptive_grad_clip(clipping, eps), m.Agc, dict(clipping=.3, eps=.01), 'azhH'),
    'private': (lambda bound: optax.differentially_private_aggregate(bound, 0., 1), lambda bound: PerExample(bound), dict(bound=.8), 'asz'),
    'nonneg': (optax.keep_params_nonnegative, m.NonNeg, dict(), 'pmz'),
    'zeronan': (optax.zero_nans, m.ZeroNans, dict(), Z),
    'every': (lambda: optax.apply_every(2), lambda: m.ApplyEvery(2), dict(), Z),
    'sgd': (optax.sgd, m.sgd, dict(learning_rate=.3, momentum=.6), Z),
    'adamw': (optax.adamw, m.adamw, dict(AD, learning_rate=.3, eps_root=.1, weight_decay=.2), Z),
    'adabelief': (optax.adabelief, m.adabelief, dict(AD, learning_rate=.3), G),
    'adagrad': (optax.adagrad, m.adagrad, dict(learning_rate=.3, initial_accumulator_value=.3, eps=.05), Z),
    'lamb': (optax.lamb, m.lamb, dict(AD, learning_rate=.3, eps_root=.1, weight_decay=.2), Z),
    'fromage': (lambda learning_rate: optax.fromage(learning_rate), m.fromage, dict(learning_rate=.3), G),
    'rmsprop': (lambda **k: optax.rmsprop(nesterov=True, **k), lambda **k: m.rmsprop(nesterov=True, **k),
                dict(learning_rate=.3, decay=.6, eps=.05, initial_scale=.3, momentum=.5), Z),
    'rmsprop_centered': (lambda **k: optax.rmsprop(centered=True, **k), lambda **k: m.rmsprop(centered=True, **k),
                         dict(learning_rate=.3, decay=.6, eps=.3, momentum=.5), G),
    'sm3_opt': (optax.sm3, m.sm3, dict(learning_rate=.3, momentum=.6), G),
    # wrappers
    'chain': (lambda max_norm, learning_rate: optax.chain(optax.clip_by_global_norm(max_norm), optax.sgd(learning_rate, .5)),
              lambda max_norm, learning_rate: m.Chain(m.ClipNorm(max_norm), m.sgd(learning_rate, .5)), dict(max_norm=1.2, learning_rate=.3), 'asz'),
    'flatten': (lambda learning_rate: optax.flatten(optax.adam(learning_rate, .6, .7, .05, .1)),
                lambda learning_rate: m.Flatten(m.adam(learning_rate, .6, .7, .05, .1)), IN, Z),
    'finite': (lambda learning_rate: optax.apply_if_finite(optax.sgd(learning_rate, .5), 1),
               lambda learning_rate: m.IfFinite(m.sgd(learning_rate, .5), 1), IN, Z),
    'multi': (lambda learning_rate: optax.MultiSteps(optax.adam(learning_rate, .6, .7, .05, .1), 2).gradient_transformation(),
              lambda learning_rate: m.MultiSteps(m.adam(learning_rate, .6, .7, .05, .1), 2), IN, Z),
    'masked': (lambda learning_rate: optax.masked(optax.adamw(learning_rate, .6, .7, .05, .1, .2), second),
               lambda learning_rate: m.Masked(m.adamw(learning_rate, .6, .7, .05, .1, .2), [False, True]), IN, Z),
    'maybe': (lambda learning_rate: wrappers.maybe_update(optax.sgd(learning_rate, .5), lambda n: n % 2 == 0),
              lambda learning_rate: m.Maybe(m.sgd(learning_rate, .5), lambda n: n % 2 == 0), IN, Z),
    'schedule': (lambda c: optax.scale_by_schedule(lambda n: c / (1. + n)), lambda c: m.BySchedule(lambda n: c / (1. + n)), dict(c=.4), Z),
    'inject': (lambda learning_rate: optax.inject_hyperparams(optax.sgd)(learning_rate=lambda n: learning_rate / (1. + n), momentum=.5),
               lambda learning_rate: m.Inject(lambda learning_rate, momentum: m.sgd(learning_rate, momentum), dict(momentum=.5),
                                              dict(learning_rate=lambda n: learning_rate / (1. + n))), IN, Z),
    'inject_sgd': (held(optax.sgd, .9), m.sgd, dict(learning_rate=.3, momentum=.6), Z),
    'inject_adamw': (held(optax.adamw, .9), m.adamw, dict(AD, learning_rate=.3, eps_root=.1, weight_decay=.2), Z),
    'inject_lamb': (held(optax.lamb, .9), m.lamb, dict(AD, learning_rate=.3, eps_root=.1, weight_decay=.2), Z),
    'inject_clip': (held(optax.clip_by_global_norm, .9), lambda max_norm: m.ClipNorm(max_norm), dict(max_norm=1.2), 'absz'),
}


def pack(ls):
  return np.concatenate([np.ravel(l) for l in ls])


def unpack(t, v):
  out, i = [], 0
  for s in t.shapes:
    n = int(np.prod(s, dtype=np.int64))
    out.append(v[i:i + n].reshape(s))
    i += n
  return out


class Run:
  """All updates of an open-loop run as a function of one vector z."""

  def __init__(self, label, t, steps):
    self.make, self.model, self.hps, _ = CASES[label]
    self.t, self.steps, self.keys = t, steps, list(self.hps)
    self.n = sum(int(np.prod(s, dtype=np.int64)) for s in t.shapes)

  def z(self, gs, p):
    return np.concatenate([pack(g) for g in gs] + [pack(p), np.array([self.hps[k] for k in self.keys])])

  def split(self, z):
    n, k = self.n, self.steps
    return [z[i * n:(i + 1) * n] for i in range(k)], z[k * n:(k + 1) * n], dict(zip(self.keys, z[(k + 1) * n:]))

  def code(self, z):
    gs, p, hp = self.split(z)
    tree = lambda v: jax.tree_util.tree_unflatten(self.t.treedef, unpack(self.t, v))
    tx = self.make(**hp)
    p = tree(p)
    s, out = tx.init(p), []
    for g in gs:
      u, s = tx.update(tree(g), s, p)
      out += [jnp.ravel(l) for l in jax.tree_util.tree_leaves(u)]
    return jnp.concatenate(out)

  def ref(self, z):
    gs, p, hp = self.split(z)
    md = self.model(**hp)
    p = unpack(self.t, p)
    s, out = md.init(p), []
    for g in gs:
      u, s = md.update(unpack(self.t, g), s, p)
      out.append(pack(u))
    return np.concatenate(out)


class Training(Run):
  """Parameters after a closed-loop run on a quadratic, as a function of the
  initial parameters, the minimiser and the hyper-parameters."""

  def curv(self):
    k = np.arange(self.n)
    a = 0.3 * np.cos(np.outer(k + 1., k + 2.))
    return a @ a.T + np.diag(0.5 + 0.2 * k)

  def z(self, c, p):
    return np.concatenate([pack(c), pack(p), np.array([self.hps[k] for k in self.keys])])

  def split(self, z):
    n = self.n
    return z[:n], z[n:2 * n], dict(zip(self.keys, z[2 * n:]))

  def code(self, z):
    c, p, hp = self.split(z)
    a = jnp.asarray(self.curv())
    tree = lambda v: jax.tree_util.tree_unflatten(self.t.treedef, unpack(self.t, v))
    flat = lambda x: jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(x)])
    tx = self.make(**hp)
    loss = lambda x: 0.5 * (flat(x) - c) @ a @ (flat(x) - c)
    p = tree(p)
    s = tx.init(p)
    def body(carry, _):
      p, s = carry
      u, s = tx.update(jax.grad(loss)(p), s, p)
      return (optax.apply_updates(p, u), s), None
    (p, _), _ = jax.lax.scan(body, (p, s), None, length=self.steps)
    return flat(p)

  def ref(self, z):
    c, p, hp = self.split(z)
    a = self.curv()
    md = self.model(**hp)
    s = md.init(unpack(self.t, p))
    for _ in range(self.steps):
      u, s = md.update(unpack(self.t, a @ (p - c)), s, unpack(self.t, p))
      p = p + pack(u)
    return p


def differences(f, z):
  """Central differences, and which columns are smooth at this step size."""
  f0 = f(z)
  cols, ok = [], []
  for j in range(len(z)):
    h = 1e-5 * abs(z[j]) + 1e-8
    up, dn = z.copy(), z.copy()
    up[j] += h
    dn[j] -= h
    fu, fd = f(up), f(dn)
    c, a, b = (fu - fd) / (2 * h), (fu - f0) / h, (f0 - fd) / h
    scale = 1. + np.maximum(np.abs(a), np.abs(b))
    cols.append(c)
    ok.append(bool((np.abs(a - b) < 2e-2 * scale).all()))
  return np.stack(cols, 1), np.array(ok)


def compare(ctx, label, run, jac, z, rtol, hist):
  ref, ok = differences(run.ref, z)
  for mode, j in jac.items():
    got = np.asarray(j(jnp.asarray(z)))
    ctx.transitions += int(ok.sum())
    bad = np.abs(got - ref) > rtol * (np.abs(ref) + 0.05 * max(1., np.abs(ref).max(initial=0.)))
    bad |= ~np.isfinite(got)
    bad &= ok[None, :]
    if bad.any():
      r, c = np.argwhere(bad)[0]
      ctx.fail('%s: the %s derivative of output %d by input %d is %r, expected %r' % (
          label, mode, r, c, float(got[r, c]), float(ref[r, c])), history=hist, z=z)
  ctx.extra['columns'] += len(ok)
  ctx.extra['kinks skipped'] += int((~ok).sum())
  if ok.sum() < 0.5 * len(ok):
    ctx.fail('%s: fewer than half of the inputs were differentiable points' % label, history=hist)


def jacobians(run):
  return {'reverse': jax.jit(jax.jacrev(run.code)), 'forward': jax.jit(jax.jacfwd(run.code))}


def updates(ctx, label, tree, steps, rtol, more=''):
  t = Tree(tree)
  run = Run(label, t, steps)
  jac = jacobians(run)
  letters = ''.join(sorted(set(CASES[label][3] + more), key=(CASES[label][3] + more).index))
  gs = dict(grads(t, letters))
  if label == 'nonneg':
    ps = [t.vals(9, 0.8, 'pos')]
  else:
    ps = [t.vals(9, 0.8), t.vals(4, 3.)]
  for h in itertools.product(letters, repeat=steps):
    # perturbed, so that no two steps or entries tie
    for p in ps:
      z = run.z([[(1. + 0.01 * i) * x for x in gs[l]] for i, l in enumerate(h)], p)
      compare(ctx, label, run, jac, z, rtol, h)
      ctx.states += steps
      ctx.traces += 1
  ctx.outcomes.add(label)
  ctx.sample({'case': label, 'inputs': len(z), 'letters': letters, 'steps': steps, 'hyper-parameters': run.keys})


def training(ctx, label, tree, steps, rtol):
  t = Tree(tree)
  jac = None
  for k in range(1, steps + 1):
    run = Training(label, t, k)
    jac = {'reverse': jax.jit(jax.jacrev(run.code)), 'forward': jax.jit(jax.jacfwd(run.code))}
    for c, p in itertools.product((t.vals(1), t.vals(5, 3.)), (t.vals(9, 0.8), t.vals(4, 2.))):
      compare(ctx, label + ' training', run, jac, run.z(c, p), rtol, ('training', k))
      ctx.states += k
      ctx.traces += 1
  ctx.outcomes.add(('training', label))
  ctx.sample({'training': label, 'horizon': steps})


# schedules: constructor, numbers to differentiate by
SCHED = {
    'constant': (lambda value: optax.constant_schedule(value), dict(value=.5)),
    'polynomial': (lambda **k: optax.polynomial_schedule(transition_steps=7, transition_begin=3, **k), dict(init_value=2., end_value=.4, power=2.3)),
    'linear': (lambda **k: optax.linear_schedule(transition_steps=7, transition_begin=3, **k), dict(init_value=2., end_value=.4)),
    'piecewise': (lambda init_value: optax.piecewise_constant_schedule(init_value, {3: .3, 7: 2.}), dict(init_value=2.)),
    'interpolated': (lambda init_value: optax.piecewise_interpolate_schedule('cosine', init_value, {3: .3, 7: 2.}), dict(init_value=2.)),
    'exponential': (lambda init_value: optax.exponential_decay(init_value, 4, .7, 2), dict(init_value=2.)),
    'exponential_end': (lambda **k: optax.exponential_decay(transition_steps=4, decay_rate=.4, transition_begin=2, staircase=True, **k), dict(init_value=2., end_value=.3)),
    'cosine': (lambda **k: optax.cosine_decay_schedule(decay_steps=9, **k), dict(init_value=2., alpha=.2)),
    'cosine_onecycle': (lambda peak_value: optax.cosine_onecycle_schedule(17, peak_value), dict(peak_value=2.)),
    'linear_onecycle': (lambda peak_value: optax.linear_onecycle_schedule(17, peak_value), dict(peak_value=2.)),
    'warmup_cosine': (lambda **k: optax.warmup_cosine_decay_schedule(warmup_steps=4, decay_steps=13, **k), dict(init_value=.1, peak_value=2., end_value=.3)),
    'warmup_exponential': (lambda **k: optax.warmup_exponential_decay_schedule(warmup_steps=4, transition_steps=5, decay_rate=.6, **k),
                           dict(init_value=.1, peak_value=2., end_value=.3)),
    'restarts': (lambda **k: optax.sgdr_schedule([dict(k, warmup_steps=2, decay_steps=7), dict(k, warmup_steps=3, decay_steps=9)]),
                 dict(init_value=.1, peak_value=2., end_value=.3)),
    'joined': (lambda a, b: optax.join_schedules([lambda n: a + 0. * n, optax.linear_schedule(b, 0., 6)], [5]), dict(a=.4, b=.9)),
}


def schedules(ctx, names, steps):
  """Derivatives of schedule values by their numbers, at every step."""
  for name in names:
    f, kw = SCHED[name]
    z = np.array(list(kw.values()))
    def value(z, n):
      return jnp.asarray(f(**dict(zip(kw, z)))(n)) * 1.
    for n in range(steps):
      ref, ok = differences(lambda z: np.array([float(value(jnp.asarray(z), n))]), z)
      for mode, jac in (('reverse', jax.jacrev), ('forward', jax.jacfwd), ('compiled', lambda g: jax.jit(jax.jacrev(g)))):
        got = np.asarray(jac(lambda z: value(z, n))(jnp.asarray(z)))[None]
        ctx.transitions += 1
        bad = ok[None] & ~(np.abs(got - ref) <= 1e-5 * (1. + np.abs(ref)))
        if bad.any():
          ctx.fail('%s schedule: its %s derivative at step %d is %s, expected %s' % (name, mode, n, got[0], ref[0]), by=list(kw))
      ctx.states += 1
    ctx.traces += 1
    ctx.outcomes.add(('schedule', name))
    ctx.sample({'schedule': name, 'by': list(kw), 'steps': steps})


NOTRAIN = ('private', 'nonneg', 'clip', 'sm3', 'sm3_sum', 'sm3_opt', 'stddev', 'rmsprop_centered')


def UNITS(tier):
  T = tier == 'thorough'
  u = []
  for i in range(4):
    u.append(('schedules-%d' % i, schedules, dict(names=list(SCHED)[i::4], steps=30 if T else 19)))
  for n in CASES:
    if n == 'radam':
      # The adaptive branch starts at the fifth step.
      u.append(('updates-radam', updates, dict(label=n, tree='pair', steps=6, rtol=2e-3)))
      u.append(('train-radam', training, dict(label=n, tree='pair', steps=7 if T else 6, rtol=2e-3)))
      continue
    u.append(('updates-' + n, updates, dict(label=n, tree='mv', steps=3, rtol=2e-3, more='c' if T else '')))
    if T:
      u.append(('updates4-' + n, updates, dict(label=n, tree='pair', steps=4, rtol=2e-3)))
    if n not in NOTRAIN:
      u.append(('train-' + n, training, dict(label=n, tree='pair', steps=5 if T else 3, rtol=2e-3)))
  return u
