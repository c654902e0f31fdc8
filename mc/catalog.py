"""Every transformation, optimiser and wrapper of the public interface.

Entry: name -> (constructor, traits).  Traits:
  p  needs parameters          l  acts leaf by leaf (mixed dtypes are fine)
  g  per-example aggregation   k  lookahead (parameters are fast/slow pairs)
  r  random noise              5  rejects leaves of more than four axes
  w  a wrapper                 c  keeps a 32-bit update count
  n  lets NaN through cleanly  i  inner is a plain optimiser (for lookahead)
"""
import jax
import jax.numpy as jnp
import optax


def sched(n):
  return 0.1 / (1. + n)


def maybe(inner, f):
  from optax._src import wrappers
  return wrappers.maybe_update(inner, f)


MASK = lambda p: jax.tree_util.tree_map(lambda x: x.ndim != 1, p)

CATALOG = {
    # transformations
    'identity': (lambda: optax.identity(), 'l'),
    'scale': (lambda: optax.scale(-0.7), 'l'),
    'scale_by_schedule': (lambda: optax.scale_by_schedule(sched), 'lc'),
    'scale_by_schedule_poly': (lambda: optax.scale_by_schedule(optax.polynomial_schedule(1., 0.1, 2, 5, 1)), 'lc'),
    'trace': (lambda: optax.trace(0.9, False), 'l'),
    'trace_nesterov': (lambda: optax.trace(0.9, True), 'l'),
    'ema': (lambda: optax.ema(0.9), 'lc'),
    'ema_raw': (lambda: optax.ema(0.9, False), 'lc'),
    'scale_by_rss': (lambda: optax.scale_by_rss(), 'l'),
    'scale_by_rms': (lambda: optax.scale_by_rms(), 'l'),
    'scale_by_rms_iv': (lambda: optax.scale_by_rms(0.5, 1e-3, 1.0), 'l'),
    'scale_by_stddev': (lambda: optax.scale_by_stddev(), 'l'),
    'scale_by_adam': (lambda: optax.scale_by_adam(), 'lc'),
    'scale_by_adam_root': (lambda: optax.scale_by_adam(0.5, 0.6, 1e-3, 1e-2), 'lc'),
    'scale_by_belief': (lambda: optax.scale_by_belief(), 'lc'),
    'scale_by_yogi': (lambda: optax.scale_by_yogi(), 'lc'),
    'scale_by_radam': (lambda: optax.scale_by_radam(), 'lc'),
    'scale_by_radam_fast': (lambda: optax.scale_by_radam(0.5, 0.6, threshold=2.5), 'lc'),
    'add_decayed_weights': (lambda: optax.add_decayed_weights(0.1), 'pl'),
    'additive_weight_decay': (lambda: optax.additive_weight_decay(0.2), 'pl'),
    'scale_by_trust_ratio': (lambda: optax.scale_by_trust_ratio(), 'pl'),
    'scale_by_trust_ratio_min': (lambda: optax.scale_by_trust_ratio(0.5), 'pl'),
    'add_noise': (lambda: optax.add_noise(0.1, 0.5, 3), 'lrc'),
    'apply_every': (lambda: optax.apply_every(3), 'l'),
    'apply_every_1': (lambda: optax.apply_every(), 'l'),
    'centralize': (lambda: optax.centralize(), 'l'),
    'scale_by_sm3': (lambda: optax.scale_by_sm3(), 'l'),
    'scale_by_sm3_ema': (lambda: optax.scale_by_sm3(0.5, 0.7), 'l'),
    'clip': (lambda: optax.clip(0.5), 'l'),
    'clip_by_global_norm': (lambda: optax.clip_by_global_norm(1.0), 'l'),
    'adaptive_grad_clip': (lambda: optax.adaptive_grad_clip(0.3), 'pl5'),
    'keep_params_nonnegative': (lambda: optax.keep_params_nonnegative(), 'pl'),
    'zero_nans': (lambda: optax.zero_nans(), 'l'),
    'dp_aggregate': (lambda: optax.differentially_private_aggregate(1.0, 0.1, 5), 'gr'),
    # optimisers
    'adabelief': (lambda: optax.adabelief(0.1), 'lci'),
    'adagrad': (lambda: optax.adagrad(0.1), 'li'),
    'adam': (lambda: optax.adam(0.1), 'lci'),
    'adam_sched': (lambda: optax.adam(sched), 'lci'),
    'adamw': (lambda: optax.adamw(0.1), 'plci'),
    'fromage': (lambda: optax.fromage(0.1), 'pli'),
    'lamb': (lambda: optax.lamb(0.1, weight_decay=0.1), 'plci'),
    'lamb_sched': (lambda: optax.lamb(sched), 'plci'),
    'noisy_sgd': (lambda: optax.noisy_sgd(0.1), 'lrci'),
    'radam': (lambda: optax.radam(0.1), 'lci'),
    'rmsprop': (lambda: optax.rmsprop(0.1), 'li'),
    'rmsprop_full': (lambda: optax.rmsprop(sched, 0.9, 1e-6, 0.1, True, 0.9, True), 'lci'),
    'sgd': (lambda: optax.sgd(0.1), 'li'),
    'sgd_momentum': (lambda: optax.sgd(sched, 0.9, True), 'lci'),
    'sm3': (lambda: optax.sm3(0.1), 'li'),
    'yogi': (lambda: optax.yogi(0.1), 'lci'),
    'dpsgd': (lambda: optax.dpsgd(0.1, 1.0, 0.1, 7, momentum=0.9), 'gr'),
    # wrappers
    'chain': (lambda: optax.chain(optax.clip_by_global_norm(1.0), optax.scale_by_adam(), optax.scale(-0.1)), 'lwc'),
    'chain_nested': (lambda: optax.chain(optax.chain(optax.trace(0.5, True)), optax.chain(optax.identity(), optax.add_decayed_weights(0.1))), 'plw'),
    'flatten': (lambda: optax.flatten(optax.adam(0.1)), 'wc'),
    'apply_if_finite': (lambda: optax.apply_if_finite(optax.adam(0.1), 2), 'lwc'),
    'apply_if_finite_p': (lambda: optax.apply_if_finite(optax.adamw(sched), 1), 'plwc'),
    'multi_steps': (lambda: optax.MultiSteps(optax.adam(0.1), 2).gradient_transformation(), 'lwc'),
    'multi_steps_sched': (lambda: optax.MultiSteps(optax.lamb(0.1), lambda n: 1 + n % 2, False).gradient_transformation(), 'plwc'),
    'masked': (lambda: optax.masked(optax.adamw(0.1), MASK), 'plwc'),
    'maybe_update': (lambda: optax.maybe_update(optax.adam(0.1), lambda n: n % 2 == 1), 'lwc'),
    'inject_hyperparams': (lambda: optax.inject_hyperparams(optax.adam)(learning_rate=sched, b1=0.8), 'wc'),
    'inject_hyperparams_c': (lambda: optax.inject_hyperparams(optax.sgd)(learning_rate=0.1, momentum=0.8, nesterov=True), 'wc'),
    'lookahead': (lambda: optax.lookahead(optax.adam(0.1), 2, 0.5), 'pkwc'),
    'lookahead_reset': (lambda: optax.lookahead(optax.adamw(sched), 3, 0.3, True), 'pkwc'),
    'nested_wrappers': (lambda: optax.apply_if_finite(optax.MultiSteps(
        optax.masked(optax.sgd(0.1, 0.9), MASK), 2).gradient_transformation(), 1), 'lwc'),
}


def names(have='', lack=''):
  return [n for n, (_, t) in CATALOG.items() if all(h in t for h in have) and not any(h in t for h in lack)]


def make(name):
  return CATALOG[name][0]()


def traits(name):
  return CATALOG[name][1]


class Sys:
  """A catalog entry on a tree: how to build its inputs and call it."""

  def __init__(self, name, tree, dtype=None, batch=3):
    self.name, self.tree, self.dtype, self.batch = name, tree, dtype, batch
    self.t = traits(name)

  def skip(self):
    if '5' in self.t and any(len(s) > 4 for s in self.tree.shapes):
      return True
    return False

  def params(self, k=9, scale=0.8, **kw):
    b = self.tree.build(self.tree.vals(k, scale, **kw), self.dtype)
    if 'k' in self.t:
      return optax.LookaheadParams(fast=b, slow=jax.tree_util.tree_map(lambda x: x * 0.5, b))
    return b

  def grad(self, leaves):
    """For aggregations, the batch holds scaled copies of the gradient."""
    import numpy as np
    if 'g' in self.t:
      leaves = [np.stack([x * s for s in (1., -0.3, 2.)[:self.batch]]) for x in leaves]
    return self.tree.build(leaves, self.dtype)
