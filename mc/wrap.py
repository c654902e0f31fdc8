"""Inner transformations for the wrapper checks, and views of wrapper states."""
import jax
import numpy as np
import optax

from mc import models as m
from mc.trees import close, leaves_of


def sched(n):
  return 0.1 / (1. + n)


# label, constructor, reference model
INNERS = [
    ('sgd', lambda: optax.sgd(0.1), m.sgd(0.1)),
    ('mom', lambda: optax.sgd(0.1, 0.9), m.sgd(0.1, 0.9)),
    ('nest', lambda: optax.sgd(sched, 0.5, True), m.sgd(sched, 0.5, True)),
    ('adam', lambda: optax.adam(0.1, 0.5, 0.9), m.adam(0.1, 0.5, 0.9)),
    ('adamw', lambda: optax.adamw(0.1, 0.5, 0.9, weight_decay=0.1),
     m.adamw(0.1, 0.5, 0.9, weight_decay=0.1)),
    ('rms', lambda: optax.rmsprop(0.1, 0.5, momentum=0.5), m.rmsprop(0.1, 0.5, momentum=0.5)),
    ('clip', lambda: optax.chain(optax.clip_by_global_norm(1.0), optax.ema(0.5)),
     m.Chain(m.ClipNorm(1.0), m.Ema(0.5))),
    ('lamb', lambda: optax.lamb(sched, weight_decay=0.1), m.lamb(sched, weight_decay=0.1)),
    ('fromage', lambda: optax.fromage(0.5), m.fromage(0.5)),
    ('radam', lambda: optax.radam(0.1, 0.5, 0.7), m.radam(0.1, 0.5, 0.7)),
    ('sm3', lambda: optax.sm3(0.3), m.sm3(0.3)),
    ('every', lambda: optax.chain(optax.apply_every(2), optax.trace(0.5, False)),
     m.Chain(m.ApplyEvery(2), m.Trace(0.5))),
    ('belief', lambda: optax.adabelief(0.1, 0.5, 0.9), m.adabelief(0.1, 0.5, 0.9)),
    ('adagrad', lambda: optax.adagrad(0.1), m.adagrad(0.1)),
    ('identity', lambda: optax.identity(), m.Identity()),
]
BY = {l: (l, k, x) for l, k, x in INNERS}


def inners(*names):
  return [BY[n] for n in names] if names else list(INNERS)


def real(label, dtype=None):
  _, make, model = BY[label]
  return m.Real(make(), model.needs_params, dtype)


def same(real_state, model_state, rtol=1e-9, atol=1e-12):
  """Whether a wrapped state equals the state kept by a `Real` inner model."""
  a = leaves_of(real_state)
  b = leaves_of(model_state['real'])
  return close(a, b, rtol, atol)


def val(x):
  return np.asarray(jax.device_get(x)).item()
