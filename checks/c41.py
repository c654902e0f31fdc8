"""C41: arguments by position, by name, or left out (documented defaults)."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax
from optax._src import numerics, wrappers

from mc.trees import Tree, grads

ASSUMPTIONS = ['two argument values per argument stand for all of them',
               'a default that differs only beyond the 9th digit on these inputs is not distinguished']

LEAVES = jax.tree_util.tree_leaves
R = object()  # required
SCH = lambda n: 0.3 / (1. + n * n)
SCH2 = lambda n: jnp.where(n % 2 == 0, 0.2, 0.5)


# ---- what is observed of a constructed object ----

def run_tx(tx, params=('a', 't', 'z'), letters='atb', steps=2, inner=False, state=True, tree='mv'):
  """Updates (and final states) of all histories, on several parameters."""
  t = Tree(tree)
  gs = dict(grads(t, letters))
  def run(p, hist):
    s, out = tx.init(p), []
    for g in hist:
      u, s = tx.update(g, s, p)
      out += LEAVES(u)
    return out + (LEAVES(s) if state else [])
  hists = list(itertools.product(letters, repeat=steps))
  batched = [t.build([np.stack([gs[h[i]][j] for h in hists]) for j in range(t.n)], jnp.float64) for i in range(steps)]
  run = jax.jit(jax.vmap(run, in_axes=(None, 0)))
  out = []
  for pn in params:
    p = t.build(dict(grads(t, pn))[pn], jnp.float64)
    out += run(p, batched)
  return [np.asarray(x) for x in out], len(hists) * len(params) * steps


def run_noisy(tx):
  """Uncompiled: compiling the random numbers takes most of the time."""
  t = Tree('mv')
  p = t.build(t.vals(9), jnp.float64)
  s, out = tx.init(p), []
  for l in 'atc':
    u, s = tx.update(t.build(dict(grads(t, l))[l], jnp.float64), s, p)
    out += [np.asarray(x) for x in LEAVES((u, s))]
  return out, 3


def run_long(tx):
  """Enough steps for RAdam's adaptive branch."""
  return run_tx(tx, params=('a',), letters='at', steps=7, tree='scalar')


def run_batch(tx):
  t = Tree('mv')
  p = t.build(t.vals(9), jnp.float64)
  out, n = [], 0
  for seq in itertools.product('aL', repeat=2):
    s = tx.init(p)
    for l in seq:
      g = dict(grads(t, l))[l]
      u, s = tx.update(t.build([np.stack([x, -2. * x, 0.3 * x]) for x in g], jnp.float64), s, p)
      out += [np.asarray(x) for x in LEAVES(u)]
      n += 1
  return out, n


def run_accumulator(tx):
  t = Tree('mv')
  p = t.build(t.vals(9), jnp.float64)
  s, out = tx.init(p), []
  for l in 'abc':
    u, s = tx.update(t.build(dict(grads(t, l))[l], jnp.float64), s, p)
    out += [np.asarray(x, np.float64) for x in LEAVES(u)]
  out.append(np.array([x.dtype.itemsize for x in LEAVES(s)]))
  return out, 3


def run_look(tx):
  t = Tree('mv')
  p = optax.LookaheadParams(t.build(t.vals(9), jnp.float64), t.build(t.vals(4), jnp.float64))
  s, out = tx.init(p), []
  for l in 'abcab':
    u, s = tx.update(t.build(dict(grads(t, l))[l], jnp.float64), s, p)
    p = optax.apply_updates(p, u)
    out += [np.asarray(x) for x in LEAVES((u, s))]
  return out, 5


def run_nonfinite(tx):
  return run_tx(tx, params=('a',), letters='aN', steps=4)


def run_schedule(f):
  n = jnp.arange(0, 60)
  out = [np.asarray(f(int(i)), np.float64) for i in (0, 1, 7)] + [np.asarray(jax.vmap(f)(n), np.float64)]
  return out, 63


def run_value(x):
  return [np.asarray(l) for l in LEAVES(x)], 1


def run_multi(ms):
  return run_tx(ms.gradient_transformation(), params=('a',), letters='ab', steps=4)


def run_inject(wrapped):
  return run_tx(wrapped(learning_rate=SCH, momentum=0.5))


MLP = lambda p, x: jnp.tanh(x @ p['w']) @ p['v']
LOSS = lambda p, x, y: jnp.mean((MLP(p, x) - y)**2)
NLL = lambda p, x, y: jnp.mean(jnp.abs(MLP(p, x) - y)**1.5)
PP = lambda: {'w': jnp.asarray(Tree('mv').vals(9)[1]), 'v': jnp.asarray(Tree('mv').vals(4)[0])}
XS = lambda k: jnp.asarray(np.cos(np.arange(6.).reshape(3, 2) + k))
YS = lambda k: jnp.asarray(np.sin(np.arange(3.) + k))
SPD = lambda k: jnp.asarray((lambda a: a @ a.T + 0.05 * np.eye(4))(np.cos(np.outer(np.arange(1., 5.), np.arange(2., 6.)) + k)))
FUN = lambda x: jnp.sum(x**2) + jnp.sum(jnp.sin(x))
FUN2 = lambda x: jnp.sum(jnp.cos(x) + x)
DB = optax.multi_normal
DB2 = lambda a, b: optax.multi_normal(2. * a, b)
EST = lambda k: [jnp.asarray(np.cos(np.arange(2.) + k)), jnp.asarray(0.1 * np.sin(np.arange(2.) + k))]
KEY = lambda k: jax.random.PRNGKey(k)

LR = ('learning_rate', R, .3, SCH)
B = [('b1', .9, .8), ('b2', .999, .95)]
MAKE_SGD = lambda learning_rate, momentum: optax.sgd(learning_rate, momentum)

def api():
  """name -> (factory, observation, [(argument, default or R, other values...)])."""
  return {
      # optimisers
      'adabelief': (optax.adabelief, run_tx, [LR] + B + [('eps', 1e-8, 1e-7)]),
      'adagrad': (optax.adagrad, run_tx, [LR, ('initial_accumulator_value', .1, .2), ('eps', 1e-7, 1e-6)]),
      'adam': (optax.adam, run_tx, [LR] + B + [('eps', 1e-8, 1e-7), ('eps_root', 0., 1e-12)]),
      'adamw': (optax.adamw, run_tx, [LR] + B + [('eps', 1e-8, 1e-7), ('eps_root', 0., 1e-12), ('weight_decay', 1e-4, .1)]),
      'fromage': (optax.fromage, run_tx, [('learning_rate', R, .3, .5), ('min_norm', 1e-6, 1e-5)]),
      'lamb': (optax.lamb, run_tx, [LR] + B + [('eps', 1e-6, 1e-7), ('eps_root', 0., 1e-12), ('weight_decay', 0., .1)]),
      'noisy_sgd': (optax.noisy_sgd, run_noisy, [LR, ('eta', .01, .02), ('gamma', .55, .6), ('seed', 0, 3)]),
      'radam': (optax.radam, run_long, [LR] + B + [('eps', 1e-8, 1e-7), ('eps_root', 0., 1e-12), ('threshold', 5., 6.5)]),
      'rmsprop': (optax.rmsprop, run_tx, [LR, ('decay', .9, .8), ('eps', 1e-8, 1e-7), ('initial_scale', 0., .1), ('centered', False, True),
                                          ('momentum', None, .6), ('nesterov', False, True)]),
      'sgd': (optax.sgd, run_tx, [LR, ('momentum', None, .6), ('nesterov', False, True)]),
      'sm3': (optax.sm3, run_tx, [('learning_rate', R, .3, .5), ('momentum', .9, .6)]),
      'yogi': (optax.yogi, run_tx, [LR] + B + [('eps', 1e-3, 1e-4)]),
      'dpsgd': (optax.dpsgd, run_batch, [LR, ('l2_norm_clip', R, 1., .5), ('noise_multiplier', R, .3, 1.), ('seed', R, 1, 2),
                                         ('momentum', None, .6), ('nesterov', False, True)]),
      # transformations
      'scale': (optax.scale, run_tx, [('step_size', R, .3, .5)]),
      'trace': (optax.trace, run_tx, [('decay', R, .9, .6), ('nesterov', False, True)]),
      'trace_acc': (lambda *a, **k: optax.trace(*a, **k), run_accumulator,
                    [('decay', R, .9, .6), ('nesterov', False, True), ('accumulator_dtype', None, jnp.float32)]),
      'ema': (optax.ema, run_accumulator, [('decay', R, .9, .6), ('debias', True, False), ('accumulator_dtype', None, jnp.float32)]),
      'scale_by_rss': (optax.scale_by_rss, run_tx, [('initial_accumulator_value', .1, .2), ('eps', 1e-7, 1e-6)]),
      'scale_by_rms': (optax.scale_by_rms, run_tx, [('decay', .9, .8), ('eps', 1e-8, 1e-7), ('initial_scale', 0., .1)]),
      'scale_by_stddev': (optax.scale_by_stddev, run_tx, [('decay', .9, .8), ('eps', 1e-8, 1e-7), ('initial_scale', 0., .1)]),
      'scale_by_adam': (optax.scale_by_adam, run_tx, B + [('eps', 1e-8, 1e-7), ('eps_root', 0., 1e-12)]),
      'scale_by_belief': (optax.scale_by_belief, run_tx, B + [('eps', 0., 1e-7), ('eps_root', 1e-16, 1e-12)]),
      'scale_by_yogi': (optax.scale_by_yogi, run_tx, B + [('eps', 1e-3, 1e-4), ('eps_root', 0., 1e-6), ('initial_accumulator_value', 1e-6, 1e-3)]),
      'scale_by_radam': (optax.scale_by_radam, run_long, B + [('eps', 1e-8, 1e-7), ('eps_root', 0., 1e-12), ('threshold', 5., 6.5)]),
      'add_decayed_weights': (optax.add_decayed_weights, run_tx, [('weight_decay', 0., .1)]),
      'additive_weight_decay': (optax.additive_weight_decay, run_tx, [('weight_decay', 0., .1)]),
      'scale_by_schedule': (optax.scale_by_schedule, run_tx, [('step_size_fn', R, SCH, SCH2)]),
      'scale_by_trust_ratio': (optax.scale_by_trust_ratio, run_tx, [('min_norm', 0., 1e-3)]),
      'add_noise': (optax.add_noise, run_noisy, [('eta', R, .1, .2), ('gamma', R, .5, .6), ('seed', R, 1, 2)]),
      'apply_every': (optax.apply_every, run_tx, [('k', 1, 2)]),
      'scale_by_sm3': (optax.scale_by_sm3, run_tx, [('b1', .9, .8), ('b2', 1., .9), ('eps', 1e-8, 1e-7)]),
      'clip': (optax.clip, run_tx, [('max_delta', R, .5, .3)]),
      'clip_by_global_norm': (optax.clip_by_global_norm, run_tx, [('max_norm', R, 1., .3)]),
      'adaptive_grad_clip': (optax.adaptive_grad_clip, run_tx, [('clipping', R, .1, .3), ('eps', 1e-3, 1e-2)]),
      'differentially_private_aggregate': (optax.differentially_private_aggregate, run_batch,
                                           [('l2_norm_clip', R, 1., .5), ('noise_multiplier', R, .3, 1.), ('seed', R, 1, 2)]),
      # wrappers
      'lookahead': (optax.lookahead, run_look, [('fast_optimizer', R, optax.adam(.1), optax.sgd(.2, .9)), ('sync_period', R, 2, 3),
                                                ('slow_step_size', R, .5, .3), ('reset_state', False, True)]),
      'apply_if_finite': (optax.apply_if_finite, run_nonfinite, [('inner', R, optax.sgd(.2, .9), optax.trace(.5)), ('max_consecutive_errors', R, 1, 2)]),
      'masked': (optax.masked, run_tx, [('inner', R, optax.sgd(.2, .9), optax.trace(.5)), ('mask', R, {'w': True, 'v': False}, {'w': False, 'v': True})]),
      'maybe_update': (wrappers.maybe_update, run_tx, [('inner', R, optax.sgd(.2, .9), optax.trace(.5)),
                                                       ('should_update_fn', R, lambda n: n > 0, lambda n: n < 1)]),
      'flatten': (optax.flatten, run_tx, [('inner', R, optax.sgd(.2, .9), optax.clip_by_global_norm(.5))]),
      'MultiSteps': (optax.MultiSteps, run_multi, [('opt', R, optax.sgd(.2, .9), optax.adam(.1)), ('every_k_schedule', R, 2, lambda n: 1 + n),
                                                   ('use_grad_mean', True, False)]),
      'inject_hyperparams': (optax.inject_hyperparams, run_inject, [('inner_factory', R, MAKE_SGD, lambda learning_rate, momentum: optax.trace(momentum)),
                                                                    ('static_args', (), 'momentum')]),
      # schedules
      'constant_schedule': (optax.constant_schedule, run_schedule, [('value', R, .3, .5)]),
      'cosine_decay_schedule': (optax.cosine_decay_schedule, run_schedule, [('init_value', R, .3, .5), ('decay_steps', R, 20, 30), ('alpha', 0., .1)]),
      'cosine_onecycle_schedule': (optax.cosine_onecycle_schedule, run_schedule,
                                   [('transition_steps', R, 40, 30), ('peak_value', R, .5, 2.), ('pct_start', .3, .4), ('div_factor', 25., 20.),
                                    ('final_div_factor', 1e4, 1e3)]),
      'linear_onecycle_schedule': (optax.linear_onecycle_schedule, run_schedule,
                                   [('transition_steps', R, 40, 30), ('peak_value', R, .5, 2.), ('pct_start', .3, .4), ('pct_final', .85, .7),
                                    ('div_factor', 25., 20.), ('final_div_factor', 1e4, 1e3)]),
      'exponential_decay': (optax.exponential_decay, run_schedule,
                            [('init_value', R, .5, 2.), ('transition_steps', R, 10, 7), ('decay_rate', R, .5, .7), ('transition_begin', 0, 3),
                             ('staircase', False, True), ('end_value', None, .4)]),
      'linear_schedule': (optax.linear_schedule, run_schedule,
                          [('init_value', R, .5, 2.), ('end_value', R, .1, .2), ('transition_steps', R, 10, 20), ('transition_begin', 0, 3)]),
      'polynomial_schedule': (optax.polynomial_schedule, run_schedule,
                              [('init_value', R, .5, 2.), ('end_value', R, .1, .2), ('power', R, 2, 1.5), ('transition_steps', R, 10, 20),
                               ('transition_begin', 0, 3)]),
      'piecewise_constant_schedule': (optax.piecewise_constant_schedule, run_schedule,
                                      [('init_value', R, .5, 2.), ('boundaries_and_scales', None, {5: .5, 9: 2.})]),
      'piecewise_interpolate_schedule': (optax.piecewise_interpolate_schedule, run_schedule,
                                         [('interpolate_type', R, 'linear', 'cosine'), ('init_value', R, .5, 2.),
                                          ('boundaries_and_scales', None, {5: .5, 9: 2.})]),
      'join_schedules': (optax.join_schedules, run_schedule, [('schedules', R, [SCH, SCH2], [SCH2, SCH]), ('boundaries', R, [3], [8])]),
      'sgdr_schedule': (optax.sgdr_schedule, run_schedule, [
          ('cosine_kwargs', R, [dict(init_value=.1, peak_value=1., decay_steps=20, warmup_steps=5, end_value=.05)] * 2,
           [dict(init_value=.1, peak_value=2., decay_steps=15, warmup_steps=3, end_value=.0)] * 2)]),
      'warmup_cosine_decay_schedule': (optax.warmup_cosine_decay_schedule, run_schedule,
                                       [('init_value', R, .1, .2), ('peak_value', R, 1., 2.), ('warmup_steps', R, 5, 8), ('decay_steps', R, 30, 40),
                                        ('end_value', 0., .05)]),
      'warmup_exponential_decay_schedule': (optax.warmup_exponential_decay_schedule, run_schedule,
                                            [('init_value', R, .1, .2), ('peak_value', R, 1., 2.), ('warmup_steps', R, 5, 8),
                                             ('transition_steps', R, 10, 7), ('decay_rate', R, .5, .7), ('transition_begin', 0, 3),
                                             ('staircase', False, True), ('end_value', None, .4)]),
      # losses
      'l2_loss': (optax.l2_loss, run_value, [('predictions', R, XS(1), XS(2)), ('targets', None, XS(3))]),
      'huber_loss': (optax.huber_loss, run_value, [('predictions', R, 3 * XS(1), XS(2)), ('targets', None, XS(3)), ('delta', 1., .4)]),
      'cosine_similarity': (optax.cosine_similarity, run_value, [('predictions', R, 1e-3 * XS(1), XS(2)), ('targets', R, XS(3), XS(4)), ('epsilon', 0., .5)]),
      'cosine_distance': (optax.cosine_distance, run_value, [('predictions', R, 1e-3 * XS(1), XS(2)), ('targets', R, XS(3), XS(4)), ('epsilon', 0., .5)]),
      'smooth_labels': (optax.smooth_labels, run_value, [('labels', R, jnp.eye(3, 2), 1. - jnp.eye(3, 2)), ('alpha', R, .1, .2)]),
      'softmax_cross_entropy': (optax.softmax_cross_entropy, run_value, [('logits', R, XS(1), XS(2)), ('labels', R, jnp.abs(XS(3)), jnp.abs(XS(4)))]),
      'sigmoid_binary_cross_entropy': (optax.sigmoid_binary_cross_entropy, run_value,
                                       [('logits', R, XS(1), XS(2)), ('labels', R, jnp.abs(XS(3)), jnp.abs(XS(4)))]),
      # parameter updates
      'apply_updates': (optax.apply_updates, run_value, [('params', R, XS(1), XS(2)), ('updates', R, XS(3), XS(4))]),
      'incremental_update': (optax.incremental_update, run_value, [('new_tensors', R, XS(1), XS(2)), ('old_tensors', R, XS(3), XS(4)), ('step_size', R, .3, .4)]),
      'periodic_update': (optax.periodic_update, run_value, [('new_tensors', R, XS(1), XS(2)), ('old_tensors', R, XS(3), XS(4)),
                                                             ('steps', R, jnp.asarray(4), jnp.asarray(6)), ('update_period', R, 2, 3)]),
      # linear algebra, second order
      'global_norm': (optax.global_norm, run_value, [('updates', R, XS(1), XS(2))]),
      'safe_norm': (numerics.safe_norm, run_value, [('x', R, XS(1), XS(2)), ('min_norm', R, .1, 9.)]),
      'power_iteration': (optax.power_iteration, run_value, [('matrix', R, SPD(1.), SPD(2.)), ('num_iters', 100, 3), ('error_tolerance', 1e-6, 1e-2)]),
      'matrix_inverse_pth_root': (optax.matrix_inverse_pth_root, run_value, [('matrix', R, SPD(1.), SPD(2.)), ('p', R, 2, 4), ('num_iters', 100, 2),
                                                                             ('ridge_epsilon', 1e-6, 1e-3), ('error_tolerance', 1e-6, 1e-1)]),
      'hvp': (optax.hvp, run_value, [('loss', R, LOSS, NLL), ('v', R, jnp.arange(6.), jnp.ones(6)), ('params', R, PP(), jax.tree_util.tree_map(lambda x: 2 * x, PP())),
                                     ('inputs', R, XS(1), XS(2)), ('targets', R, YS(1), YS(2))]),
      'hessian_diag': (optax.hessian_diag, run_value, [('loss', R, LOSS, NLL), ('params', R, PP(), jax.tree_util.tree_map(lambda x: 2 * x, PP())),
                                                       ('inputs', R, XS(1), XS(2)), ('targets', R, YS(1), YS(2))]),
      'fisher_diag': (optax.fisher_diag, run_value, [('negative_log_likelihood', R, LOSS, NLL), ('params', R, PP(), jax.tree_util.tree_map(lambda x: 2 * x, PP())),
                                                     ('inputs', R, XS(1), XS(2)), ('targets', R, YS(1), YS(2))]),
      # gradient estimators
      'multi_normal': (lambda *a, **k: optax.multi_normal(*a, **k).params, run_value, [('loc', R, EST(1)[0], EST(2)[0]), ('log_scale', R, EST(1)[1], EST(2)[1])]),
      'score_function_jacobians': (optax.score_function_jacobians, run_value,
                                   [('function', R, FUN, FUN2), ('params', R, EST(1), EST(2)), ('dist_builder', R, DB, DB2), ('rng', R, KEY(0), KEY(1)),
                                    ('num_samples', R, 5, 6)]),
      'pathwise_jacobians': (optax.pathwise_jacobians, run_value,
                             [('function', R, FUN, FUN2), ('params', R, EST(1), EST(2)), ('dist_builder', R, DB, DB2), ('rng', R, KEY(0), KEY(1)),
                              ('num_samples', R, 5, 6)]),
      'measure_valued_jacobians': (optax.measure_valued_jacobians, run_value,
                                   [('function', R, FUN, FUN2), ('params', R, EST(1), EST(2)), ('dist_builder', R, DB, DB), ('rng', R, KEY(0), KEY(1)),
                                    ('num_samples', R, 5, 6), ('coupling', True, False)]),
      'control_delta_method': (lambda *a, **k: optax.control_delta_method(*a, **k)[0](EST(1), XS(1)[0], None), run_value, [('function', R, FUN, FUN2)]),
      'moving_avg_baseline': (lambda *a, **k: baseline(optax.moving_avg_baseline(*a, **k)), run_value,
                              [('function', R, FUN, FUN2), ('decay', .99, .9), ('zero_debias', True, False), ('use_decay_early_training_heuristic', True, False)]),
      'control_variates_jacobians': (optax.control_variates_jacobians, run_value, [
          ('function', R, FUN, FUN2), ('control_variate_from_function', R, optax.control_delta_method, optax.moving_avg_baseline),
          ('grad_estimator', R, optax.score_function_jacobians, optax.pathwise_jacobians), ('params', R, EST(1), EST(2)),
          ('dist_builder', R, DB, DB), ('rng', R, KEY(0), KEY(1)), ('num_samples', R, 6, 7),
          ('control_variate_state', None, (jnp.asarray(.5), jnp.asarray(2))), ('estimate_cv_coeffs', False, True),
          ('estimate_cv_coeffs_num_samples', 20, 12)]),
  }


def baseline(cv):
  delta, expected, update = cv
  s = (jnp.zeros(()), jnp.asarray(0))
  out = []
  for k in range(3):
    s = update(EST(1), jnp.stack([XS(k)[0], XS(k)[1]]), s)
    out += [s, delta(EST(1), XS(k)[0], s), expected(EST(1), s)]
  return out


def same(a, b):
  if len(a) != len(b):
    return False
  for x, y in zip(a, b):
    if x.shape != y.shape or not np.allclose(x, y, rtol=1e-9, atol=1e-300, equal_nan=True):
      return False
  return True


def configs(args, full):
  """The argument vectors: which arguments differ from their first value."""
  n = len(args)
  for k in range(n + 1):
    if not full and 2 < k < n:
      continue
    yield from itertools.combinations(range(n), k)


def forms(args, vec, mixed):
  """Ways of writing one call: label, positional, keywords."""
  n = len(args)
  kw = {a[0]: v for a, v in zip(args, vec)}
  isdef = [a[1] is not R and v is a[1] for a, v in zip(args, vec)]
  yield 'defaults omitted', [], {a[0]: v for a, v, d in zip(args, vec, isdef) if not d}
  yield 'all positional', list(vec), {}
  last = max([i + 1 for i in range(n) if not isdef[i]], default=0)
  if last < n:
    yield 'trailing defaults omitted', list(vec[:last]), {}
  if mixed:
    for k in range(1, n):
      yield 'first %d positional' % k, list(vec[:k]), {a: v for a, v in list(kw.items())[k:]}
      yield 'first %d positional, defaults omitted' % k, list(vec[:k]), {
          a[0]: v for a, v, d in list(zip(args, vec, isdef))[k:] if not d}


def legal(name, kw):
  if name == 'control_variates_jacobians':
    # The moving average needs a state, the delta method has none.
    if kw['control_variate_from_function'] is optax.moving_avg_baseline and kw['control_variate_state'] is None:
      return False
    if kw['control_variate_from_function'] is optax.control_delta_method and kw['control_variate_state'] is not None:
      return False
  return True


def interface(ctx, name, full, mixed):
  factory, observe, args = api()[name]
  # default first where there is one
  values = [tuple(a[1:]) if a[1] is not R else tuple(a[2:]) for a in args]
  seen = {}
  for c in configs(args, full):
    vec = [v[(len(v) - 1) if i in c else 0] for i, v in enumerate(values)]
    kw = {a[0]: v for a, v in zip(args, vec)}
    if not legal(name, kw):
      continue
    np.random.seed(0)  # power_iteration draws its start
    ref, n = observe(factory(**kw))
    ctx.states += n
    for label, pos, k in forms(args, vec, mixed):
      np.random.seed(0)
      got, n = observe(factory(*pos, **k))
      ctx.states += n
      ctx.transitions += n
      ctx.traces += 1
      if not same(got, ref):
        i = next((i for i, (x, y) in enumerate(zip(got, ref)) if not same([x], [y])), -1)
        ctx.fail('%s: %s differs from all arguments by name (output %d): %s positional, %s by name' % (
            name, label, i, pos, k), configuration=[str(kw)], got=got[i], expected=ref[i])
    # Changing one more argument is visible, so the comparisons mean something.
    seen[c] = ref
  for c, r in seen.items():
    for i in range(len(args)):
      d = tuple(sorted(c + (i,)))
      if i not in c and d in seen:
        key = '%s.%s' % (name, args[i][0])
        if not same(r, seen[d]):
          ctx.outcomes.add(key)
          ctx.extra['visible argument changes'] += 1
        else:
          ctx.extra['invisible argument changes'] += 1
  blind = [a[0] for a in args if '%s.%s' % (name, a[0]) not in ctx.outcomes and len(set(map(id, a[2:] if a[1] is R else a[1:]))) > 1]
  # An argument no configuration shows the effect of is not passed on. (The state of the control variate is
  # legal only together with the one that needs it.)
  for a in blind:
    if (name, a) not in (('control_variates_jacobians', 'control_variate_from_function'), ('control_variates_jacobians', 'control_variate_state')):
      ctx.fail('%s: argument %s has no effect' % (name, a), configuration=[a])
  ctx.sample({'factory': name, 'arguments': [a[0] for a in args], 'never visible': blind})


def UNITS(tier):
  T = tier == 'thorough'
  return [('api-' + n, interface, dict(name=n, full=T or len(a) <= 4, mixed=T)) for n, (_, _, a) in api().items()]
