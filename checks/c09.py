"""C09: rms, stddev, rss, rmsprop and adagrad use the documented statistics."""
import itertools

import numpy as np
import optax
import jax
import jax.numpy as jnp

from mc import models as m
from mc.std import deep, wide, long
from mc.trees import LARGE, ALL, Tree

ASSUMPTIONS = ['gradient values outside the alphabet behave like those in it',
               'double precision reference within rtol 1e-8 (centred: where the variance is '
               'well conditioned)']


def constant32(ctx, make, values, steps, label, decay, eps):
  """Single precision: constant gradients never give NaN, in any long run."""
  tx = make()
  @jax.jit
  def run(g):
    s0 = tx.init(g)
    def body(s, _):
      u, s = tx.update(g, s)
      return s, u
    return jax.lax.scan(body, s0, None, length=steps)[1]
  for v in values:
    u = np.asarray(run(jnp.asarray([v, -v], jnp.float32)))
    ctx.transitions += steps
    ctx.states += steps
    ctx.traces += 1
    ctx.outcomes.add((label, v))
    if not np.isfinite(u).all():
      ctx.fail('%s: constant gradient %r gives a non-finite update at step %d' % (
          label, v, int(np.argmin(np.isfinite(u).all(-1)))), value=v)
  ctx.sample({'system': label, 'constant gradients': list(values), 'steps': steps})


def UNITS(tier):
  T = tier == 'thorough'
  u = []
  sched = lambda n: 0.1 / (1. + n)
  tol = dict(rtol=1e-8, atol=1e-10)
  main = [
      ('rms', lambda: optax.scale_by_rms(), m.Rms()),
      ('rms-i', lambda: optax.scale_by_rms(0.5, 1e-2, 1.0), m.Rms(0.5, 1e-2, 1.0)),
      ('stddev', lambda: optax.scale_by_stddev(0.9, 1e-3), m.Stddev(0.9, 1e-3)),
      ('stddev-i', lambda: optax.scale_by_stddev(0.5, 1e-2, 2.0), m.Stddev(0.5, 1e-2, 2.0)),
      ('rss', lambda: optax.scale_by_rss(), m.Rss()),
      ('rss-0', lambda: optax.scale_by_rss(0., 1e-3), m.Rss(0., 1e-3)),
      ('rmsprop', lambda: optax.rmsprop(0.1), m.rmsprop(0.1)),
      ('rmsprop-s', lambda: optax.rmsprop(sched, momentum=0.9), m.rmsprop(sched, momentum=0.9)),
      ('rmsprop-c', lambda: optax.rmsprop(0.1, 0.8, 1e-2, 1.0, True, 0.9, True),
       m.rmsprop(0.1, 0.8, 1e-2, 1.0, True, 0.9, True)),
      ('rmsprop-cs', lambda: optax.rmsprop(sched, eps=1e-3, centered=True, momentum=0.5),
       m.rmsprop(sched, eps=1e-3, centered=True, momentum=0.5)),
      ('rmsprop-n', lambda: optax.rmsprop(0.1, momentum=0.5, nesterov=True),
       m.rmsprop(0.1, momentum=0.5, nesterov=True)),
      ('adagrad', lambda: optax.adagrad(0.1), m.adagrad(0.1)),
      ('adagrad-0', lambda: optax.adagrad(sched, 0., 1e-4), m.adagrad(sched, 0., 1e-4)),
  ]
  for label, make, model in main:
    u.append(('deep-' + label, deep, dict(
        make=make, model=model, tree='dict', letters='zabcs', depth=(7 if T else 5),
        label=label, **tol)))
    u.append(('deepn-' + label, deep, dict(
        make=make, model=model, tree='nest', letters='zhH', depth=(8 if T else 6), label=label, **tol)))
    u.append(('long-' + label, long, dict(
        make=make, model=model, tree='vec', steps=6000 if T else 1000, label=label,
        cycles=[('c', 'ab'), ('', 'abs'), ('a', 'zabs')], **tol)))
  cases = []
  for dec, eps, iv in itertools.product((0., 0.5, 0.99), (1e-4, 0.3), (0., 0.1, 1.)):
    a = (dec, eps, iv)
    cases.append(('rms%s' % (a,), lambda a=a: optax.scale_by_rms(*a), m.Rms(*a)))
    cases.append(('stddev%s' % (a,), lambda a=a: optax.scale_by_stddev(*a), m.Stddev(*a)))
    if dec == 0.5:
      cases.append(('rss%s' % (a[1:],), lambda a=a: optax.scale_by_rss(a[2], a[1]), m.Rss(a[2], a[1])))
      cases.append(('adagrad%s' % (a[1:],), lambda a=a: optax.adagrad(0.3, a[2], a[1]),
                    m.adagrad(0.3, a[2], a[1])))
    for cen, mom, nes in itertools.product((False, True), (None, 0., 0.7), (False, True)):
      b = a + (cen, mom, nes)
      cases.append(('rmsprop%s' % (b,), lambda b=b: optax.rmsprop(0.3, *b), m.rmsprop(0.3, *b)))
  # Tiny and absent constants, tiny gradients.
  tiny = []
  for eps, iv in itertools.product((0., 1e-30, 1e-18, 1e-12), (0., 1e-20, 1e-10)):
    tiny.append(('rss%s' % ((eps, iv),), lambda e=eps, i=iv: optax.scale_by_rss(i, e), m.Rss(iv, eps)))
    tiny.append(('adagrad%s' % ((eps, iv),), lambda e=eps, i=iv: optax.adagrad(0.3, i, e), m.adagrad(0.3, iv, eps)))
    if eps:
      for dec in (0., 0.9):
        a = (dec, eps, iv)
        tiny.append(('rms%s' % (a,), lambda a=a: optax.scale_by_rms(*a), m.Rms(*a)))
        tiny.append(('rmsprop%s' % (a,), lambda a=a: optax.rmsprop(0.3, *a), m.rmsprop(0.3, *a)))
  u += [('tiny-%d' % i, wide, dict(cases=tiny[i::6], tree='dict', letters='zats', depth=4 if T else 3, **tol))
        for i in range(6)]
  u += [('grid-%d' % i, wide, dict(cases=cases[i::12], tree='dict', letters='zab', depth=3, **tol))
        for i in range(12)]
  for tree in ALL:
    u.append(('tree-' + tree, wide, dict(
        cases=main, tree=tree, letters='ab', depth=4 if T else 3, mode='jit', **tol)))
  vals = [1e-6, 0.1, 1.1, 3.3, 77.77, 777.7, 77777., 123456.]
  for dec in (0.5, 0.9, 0.99):
    for nm, mk in (('stddev', lambda dec=dec: optax.scale_by_stddev(dec)),
                   ('rmspropc', lambda dec=dec: optax.rmsprop(0.1, dec, centered=True))):
      u.append(('const32-%s-%s' % (nm, dec), constant32, dict(
          make=mk, values=vals, steps=20000 if T else 3000, label='%s(%s)' % (nm, dec),
          decay=dec, eps=1e-8, x64=False)))
  for tree in LARGE:
    u.append(('tree-' + tree, wide, dict(cases=main, tree=tree, letters='ab', depth=2, mode='jit', **tol)))
  return u
