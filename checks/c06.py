"""C06: adam and adamw follow the published algorithm."""
import itertools

import optax

from mc import models as m
from mc.std import deep, wide, long, counts, pow2_counts
from mc.trees import LARGE, ALL

ASSUMPTIONS = ['gradient and parameter values outside the alphabet behave like those in it',
               'double precision reference within rtol 1e-9']


def grid():
  for b1, b2, eps, er in itertools.product(
      (0., 0.5, 0.9), (0., 0.9, 0.999), (1e-8, 0.1), (0., 1e-4, 0.5)):
    kw = dict(b1=b1, b2=b2, eps=eps, eps_root=er)
    yield kw


def UNITS(tier):
  T = tier == 'thorough'
  u = []
  sched = lambda n: 0.1 / (1. + n)
  main = [
      ('adam', lambda: optax.adam(0.1), m.adam(0.1)),
      ('adam-b', lambda: optax.adam(0.1, b1=0.5, b2=0.9, eps=1e-3, eps_root=1e-2),
       m.adam(0.1, 0.5, 0.9, 1e-3, 1e-2)),
      ('adam-s', lambda: optax.adam(sched), m.adam(sched)),
      ('adam-b1=0', lambda: optax.adam(0.1, b1=0.), m.adam(0.1, b1=0.)),
      ('adam-b2=0', lambda: optax.adam(0.1, b2=0.), m.adam(0.1, b2=0.)),
      ('scale_by_adam', lambda: optax.scale_by_adam(), m.Adam()),
      ('scale_by_adam-r', lambda: optax.scale_by_adam(0.8, 0.95, 1e-4, 0.1),
       m.Adam(0.8, 0.95, 1e-4, 0.1)),
      ('adamw', lambda: optax.adamw(0.1), m.adamw(0.1)),
      ('adamw-b', lambda: optax.adamw(0.1, weight_decay=0.3, eps_root=0.01, b1=0.7),
       m.adamw(0.1, weight_decay=0.3, eps_root=0.01, b1=0.7)),
      ('adamw-s', lambda: optax.adamw(sched, weight_decay=0.3), m.adamw(sched, weight_decay=0.3)),
  ]
  for label, make, model in main:
    w = 'adamw' in label
    u.append(('deep-' + label, deep, dict(
        make=make, model=model, tree='dict', letters='ab' if w else 'zabLs',
        params=('p1', 'p2') if w else None, depth=(7 if T else 6), label=label)))
    u.append(('deepn-' + label, deep, dict(
        make=make, model=model, tree='nest', letters='zhH', depth=(7 if T else 6), label=label,
        closed=True)))
    u.append(('counts-' + label, counts, dict(
        cases=[(label, make, model)], tree='dict', letters='ab', depth=2,
        ns=pow2_counts())))
    u.append(('counts0-' + label, counts, dict(
        cases=[(label, make, model)], tree='scalar', letters='az', depth=2,
        ns=list(range(0, 3000 if T else 400)))))
    u.append(('long-' + label, long, dict(
        make=make, model=model, tree='scalar', steps=6000 if T else 1200, label=label,
        closed=w, rtol=1e-8, atol=1e-10)))
  cases = []
  for kw in grid():
    cases.append(('adam(%s)' % kw, lambda kw=kw: optax.adam(0.3, **kw), m.adam(0.3, **kw)))
  # Tiny and absent constants, tiny gradients.
  tiny = []
  for b2, eps, er in itertools.product((0., 0.999), (1e-30, 1e-18, 1e-12, 1e-8), (0., 1e-30, 1e-16, 1e-12)):
    a = (0.9, b2, eps, er)
    tiny.append(('scale_by_adam%s' % (a,), lambda a=a: optax.scale_by_adam(*a), m.Adam(*a)))
  u += [('tiny-%d' % i, wide, dict(cases=tiny[i::4], tree='dict', letters='zats', depth=4 if T else 3)) for i in range(4)]
  u += [('grid-%d' % i, wide, dict(cases=cases[i::6], tree='dict', letters='zab', depth=3))
        for i in range(6)]
  casesw = []
  for kw in list(grid())[::3]:
    for wd in (0., 1e-4, 0.5):
      casesw.append(('adamw(%s,%s)' % (kw, wd),
                     lambda kw=kw, wd=wd: optax.adamw(0.3, weight_decay=wd, **kw),
                     m.adamw(0.3, weight_decay=wd, **kw)))
  u += [('gridw-%d' % i, wide, dict(cases=casesw[i::4], tree='dict', letters='ab', depth=2,
                                    params=('p1', 'p2')))
        for i in range(4)]
  for tree in ALL:
    u.append(('tree-' + tree, wide, dict(
        cases=[main[0], main[1], main[7], main[8]], tree=tree, letters='azb', depth=4 if T else 3,
        mode='jit')))
  for tree in LARGE:
    u.append(('tree-' + tree, wide, dict(cases=[main[1], main[8]], tree=tree, letters='ab', depth=2, mode='jit')))
  return u
