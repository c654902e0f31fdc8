"""C07: adabelief and yogi follow their published second moments."""
import itertools

import optax

from mc import models as m
from mc.std import deep, wide, long, counts, pow2_counts
from mc.trees import LARGE, ALL

ASSUMPTIONS = ['gradient values outside the alphabet behave like those in it',
               'double precision reference within rtol 1e-9']

# A run that matches the listed deviation exactly is the known finding; a run
# that matches neither it nor the published algorithm is a violation.
WHAT = 'yogi squares the signed squared gradient again'


def kf(model):
  return dict(listed=('yogi-squares-twice', WHAT, model))


def UNITS(tier):
  T = tier == 'thorough'
  u = []
  sched = lambda n: 0.1 / (1. + n)
  main = [
      ('adabelief', lambda: optax.adabelief(0.1), m.adabelief(0.1), {}),
      ('adabelief-b', lambda: optax.adabelief(0.1, b1=0.5, b2=0.9, eps=1e-2),
       m.adabelief(0.1, 0.5, 0.9, 1e-2), {}),
      ('adabelief-s', lambda: optax.adabelief(sched), m.adabelief(sched), {}),
      ('belief-r', lambda: optax.scale_by_belief(0.8, 0.95, 1e-4, 0.1),
       m.Belief(0.8, 0.95, 1e-4, 0.1), {}),
      ('belief', lambda: optax.scale_by_belief(), m.Belief(), {}),
      ('yogi', lambda: optax.yogi(0.1), m.yogi(0.1), kf(m.yogi_listed(0.1))),
      ('yogi-b', lambda: optax.yogi(0.1, b1=0.5, b2=0.7, eps=1e-2),
       m.yogi(0.1, 0.5, 0.7, 1e-2), kf(m.yogi_listed(0.1, 0.5, 0.7, 1e-2))),
      ('yogi-s', lambda: optax.yogi(sched), m.yogi(sched), kf(m.yogi_listed(sched))),
      ('by_yogi', lambda: optax.scale_by_yogi(0.8, 0.9, 1e-3, 0.05, 0.1),
       m.Yogi(0.8, 0.9, 1e-3, 0.05, 0.1), kf(m.YogiListed(0.8, 0.9, 1e-3, 0.05, 0.1))),
      ('by_yogi-1', lambda: optax.scale_by_yogi(initial_accumulator_value=1.0),
       m.Yogi(iv=1.0), kf(m.YogiListed(iv=1.0))),
  ]
  for label, make, model, more in main:
    u.append(('deep-' + label, deep, dict(
        make=make, model=model, tree='dict', letters='zabLs', depth=(7 if T else 6) - 1,
        label=label, **more)))
    u.append(('deepn-' + label, deep, dict(
        make=make, model=model, tree='nest', letters='zhH', depth=(7 if T else 6),
        label=label, **more)))
    u.append(('counts-' + label, counts, dict(
        cases=[(label, make, model, more)], tree='dict', letters='ab', depth=2,
        ns=pow2_counts())))
    u.append(('counts0-' + label, counts, dict(
        cases=[(label, make, model, more)], tree='scalar', letters='az', depth=2,
        ns=list(range(0, 3000 if T else 300)))))
    u.append(('long-' + label, long, dict(
        make=make, model=model, tree='scalar', steps=6000 if T else 1200, label=label,
        cycles=[('L', 'ab'), ('', 'abs'), ('a', 'zabs'), ('', 'abz')],
        rtol=1e-7, atol=1e-9, **more)))
  cases = []
  for b1, b2, eps, er in itertools.product((0., 0.5, 0.9), (0.3, 0.9, 0.999), (1e-8, 0.1), (1e-4, 0.5)):
    cases.append(('belief%s' % ((b1, b2, eps, er),),
                  lambda a=(b1, b2, eps, er): optax.scale_by_belief(*a), m.Belief(b1, b2, eps, er)))
    for iv in (1e-6, 0.3):
      cases.append(('yogi%s' % ((b1, b2, eps, er, iv),),
                    lambda a=(b1, b2, eps, er, iv): optax.scale_by_yogi(*a),
                    m.Yogi(b1, b2, eps, er, iv), kf(m.YogiListed(b1, b2, eps, er, iv))))
  # Tiny and absent constants, tiny gradients.
  tiny = []
  for eps, er in itertools.product((0., 1e-30, 1e-16, 1e-8), (1e-30, 1e-16, 1e-12)):
    a = (0.9, 0.999, eps, er)
    tiny.append(('belief%s' % (a,), lambda a=a: optax.scale_by_belief(*a), m.Belief(*a)))
    for iv in (0., 1e-20):
      b = a + (iv,)
      tiny.append(('yogi%s' % (b,), lambda b=b: optax.scale_by_yogi(*b), m.Yogi(*b), kf(m.YogiListed(*b))))
  u += [('tiny-%d' % i, wide, dict(cases=tiny[i::4], tree='dict', letters='zats', depth=4 if T else 3, rtol=1e-7))
        for i in range(4)]
  u += [('grid-%d' % i, wide, dict(cases=cases[i::8], tree='dict', letters='zab', depth=3))
        for i in range(8)]
  # Powers of two, so that the squared gradient can equal the second moment.
  for b1, b2, iv in itertools.product((0.5,), (0.25, 0.5, 0.75), (0.0625, 0.25, 1., 4.)):
    u.append(('ties-%s' % ((b1, b2, iv),), wide, dict(
        cases=[('yogi', lambda a=(b1, b2, 0.5, 0.25, iv): optax.scale_by_yogi(*a),
                m.Yogi(b1, b2, 0.5, 0.25, iv), kf(m.YogiListed(b1, b2, 0.5, 0.25, iv))),
               ('belief', lambda a=(b1, b2, 0.5, 0.25): optax.scale_by_belief(*a), m.Belief(b1, b2, 0.5, 0.25))],
        tree='dict', letters='dDz', depth=5 if T else 3, mode='jit')))
  for tree in ALL:
    u.append(('tree-' + tree, wide, dict(
        cases=[main[0], main[1], main[5], main[8]], tree=tree, letters='azb', depth=4 if T else 3,
        mode='jit')))
  for tree in LARGE:
    u.append(('tree-' + tree, wide, dict(cases=[main[0], main[5]], tree=tree, letters='ab', depth=2, mode='jit')))
  return u
