"""C08: RAdam switches exactly at the variance-tractability threshold."""
import itertools

import optax

from mc import models as m
from mc.std import deep, wide, long, counts, pow2_counts
from mc.trees import LARGE, ALL

ASSUMPTIONS = ['gradient values outside the alphabet behave like those in it',
               'double precision reference within rtol 1e-7']


def margin_ok(model, n):
  """Excludes steps where rho is within rounding of the threshold."""
  ri, r = model.rho(max(n, 1))
  return abs(r - model.th) > 1e-6


def UNITS(tier):
  T = tier == 'thorough'
  u = []
  sched = lambda n: 0.1 / (1. + n)
  main = [
      ('radam', lambda: optax.radam(0.1), m.radam(0.1)),
      ('radam-b', lambda: optax.radam(0.1, b1=0.5, b2=0.9, eps=1e-3, eps_root=1e-2),
       m.radam(0.1, 0.5, 0.9, 1e-3, 1e-2)),
      ('radam-t', lambda: optax.radam(0.1, b2=0.95, threshold=6.5), m.radam(0.1, b2=0.95, threshold=6.5)),
      ('radam-s', lambda: optax.radam(sched), m.radam(sched)),
      ('by_radam', lambda: optax.scale_by_radam(0.8, 0.97, 1e-4, 0.1, 4.5),
       m.Radam(0.8, 0.97, 1e-4, 0.1, 4.5)),
      ('by_radam-never', lambda: optax.scale_by_radam(b2=0.6, threshold=5.), m.Radam(b2=0.6)),
  ]
  tol = dict(rtol=1e-7, atol=1e-10)
  for label, make, model in main:
    u.append(('deep-' + label, deep, dict(
        make=make, model=model, tree='dict', letters='abL', depth=(9 if T else 8), label=label, **tol)))
    u.append(('deepn-' + label, deep, dict(
        make=make, model=model, tree='nest', letters='zhH', depth=(8 if T else 7), label=label, **tol)))
    u.append(('counts-' + label, counts, dict(
        cases=[(label, make, model)], tree='dict', letters='ab', depth=2,
        ns=pow2_counts(), **tol)))
    u.append(('counts0-' + label, counts, dict(
        cases=[(label, make, model)], tree='scalar', letters='az', depth=2,
        ns=list(range(0, 3000 if T else 300)), **tol)))
    u.append(('late-' + label, deep, dict(
        make=make, model=model, tree='dict', letters='abz', depth=7 if T else 6, count=3,
        label=label, **tol)))
    u.append(('long-' + label, long, dict(
        make=make, model=model, tree='scalar', steps=6000 if T else 1200, label=label, **tol)))
  cases = []
  for b1, b2, th in itertools.product(
      (0., 0.9), (0.7, 0.8, 0.9, 0.95, 0.99, 0.999, 0.9999), (4.01, 4.5, 5.0, 5.5, 6., 8., 20.)):
    mod = m.Radam(b1, b2, 1e-8, 0., th)
    if all(margin_ok(mod, n) for n in range(1, 60)):
      cases.append(('radam%s' % ((b1, b2, th),),
                    lambda a=(b1, b2, 1e-8, 0., th): optax.scale_by_radam(*a), mod))
  # Tiny and absent constants, tiny gradients, from just before the switch.
  tiny = []
  for eps, er in itertools.product((1e-30, 1e-16, 1e-8), (0., 1e-30, 1e-16)):
    a = (0.9, 0.999, eps, er)
    tiny.append(('radam%s' % (a,), lambda a=a: optax.scale_by_radam(*a), m.Radam(*a)))
  u += [('tiny-%d' % i, counts, dict(cases=tiny[i::3], tree='dict', letters='zats', depth=3, ns=[4, 40], **tol))
        for i in range(3)]
  u += [('grid-%d' % i, counts, dict(cases=cases[i::14], tree='scalar', letters='ab', depth=2,
                                     ns=list(range(0, 50)), **tol))
        for i in range(14)]
  for tree in ALL:
    u.append(('tree-' + tree, wide, dict(
        cases=[main[0], main[2], main[4]], tree=tree, letters='ab', depth=8 if T else 7,
        mode='jit', **tol)))
  for tree in LARGE:
    u.append(('tree-' + tree, wide, dict(cases=[main[0], main[2], main[4]], tree=tree, letters='a', depth=7, mode='jit', **tol)))
  return u
