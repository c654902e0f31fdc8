"""C21: lookahead synchronises slow and fast weights every sync_period steps."""
import itertools
import logging

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc import models as m
from mc.explore import Spec, explore, lasso, canon_sut
from mc.trees import LARGE, ALL, Tree, grads, close, leaves_of
from mc.wrap import inners, real, same

ASSUMPTIONS = ['gradients and parameters outside the alphabet behave like those in it',
               'double precision reference within rtol 1e-9']


def pair(t):
  n = t.n

  def build(p):
    return optax.LookaheadParams(fast=t.build(p[:n]), slow=t.build(p[n:]))
  return build


def view(s, mm):
  if 'real' in mm['inner'] and not same(s.fast_state, mm['inner']):
    return 'the fast optimiser state is not the expected one'


def system(inner, k, a, reset, tree, against='real', mode='jit', start='synced', **kw):
  label, make, model = inner
  t = Tree(tree)
  fast = t.vals(9, 0.8)
  slow = [x.copy() for x in fast] if start == 'synced' else t.vals(12, -0.6)
  tx = optax.lookahead(make(), k, a, reset)
  mod = m.Lookahead(real(label) if against == 'real' else model, k, a, reset)
  return Spec(tx, mod, t, params=fast + slow, mode=mode, pass_params=True, build_params=pair(t), view=view,
              label='lookahead(%s,%d,%s,%s)' % (label, k, a, reset), **kw)


def histories(ctx, cases, letters, depth, **kw):
  """Training runs: the updates are applied."""
  for inner, k, a, reset in cases:
    sp = system(inner, k, a, reset, **kw)
    explore(ctx, sp, grads(sp.tree, letters), depth, closed=True)


def anyparams(ctx, cases, letters, depth, **kw):
  """Fast and slow weights chosen freely at every step."""
  for inner, k, a, reset in cases:
    sp = system(inner, k, a, reset, **kw)
    t = sp.tree
    ps = [('p', t.vals(9, 0.8) + t.vals(12, -0.6)), ('q', t.vals(11, 3.) + t.vals(11, 3.)),
          ('0', t.zeros() + t.vals(12))]
    acts = [(x + n, g, p) for x, g in grads(t, letters) for n, p in ps]
    explore(ctx, sp, acts, depth)


def late(ctx, inner, starts, reset, depth=4):
  """Long periods near their end."""
  for n in starts:
    for k in (n + 1, n + 3):
      sp = system(inner, k, 0.3, reset, 'pair', start='apart')
      sp.start = lambda s, mm: (s._replace(steps_since_sync=jnp.asarray(n, s.steps_since_sync.dtype)), {**mm, 'i': n})
      explore(ctx, sp, grads(sp.tree, 'ab'), depth, closed=True)


def long(ctx, inner, ks, **kw):
  for k in ks:
    for reset in (True, False):
      sp = system(inner, k, 0.3, reset, 'dict', **kw)
      g = dict(grads(sp.tree, 'abczs'))
      for cyc in ('abczs', 'ab', 'a'):
        lasso(ctx, sp, [], [(x, g[x]) for x in cyc], 4 * k + 2, closed=True)


def synced(ctx, tree, inner, k, a, reset):
  """After every k-th step the two copies of the parameters are equal."""
  label, make, model = inner
  t = Tree(tree)
  tx = optax.lookahead(make(), k, a, reset)
  step = jax.jit(tx.update)
  gs = dict(grads(t, 'abz'))
  for hist in itertools.product('abz', repeat=min(2 * k, 5) if k > 2 else 2 * k):
    p = optax.LookaheadParams.init_synced(t.build(t.vals(9)))
    s = tx.init(p)
    for i, x in enumerate(hist):
      before = leaves_of(p.slow)
      u, s = step(t.build(gs[x]), s, p)
      p = optax.apply_updates(p, u)
      ctx.transitions += 1
      if (i + 1) % k == 0:
        if not close(leaves_of(p.fast), leaves_of(p.slow), 1e-12, 1e-12):
          ctx.fail('fast and slow weights differ after synchronising at step %d of %s' % (i + 1, hist))
      elif not all((x == y).all() for x, y in zip(before, leaves_of(p.slow))):
        ctx.fail('slow weights moved at step %d of %s (k=%d)' % (i + 1, hist, k))
    ctx.traces += 1
  ctx.states += 1
  # Initialising from the fast parameters alone gives the same state.
  ps = t.build(t.vals(9))
  if canon_sut(tx.init(ps)) != canon_sut(tx.init(optax.LookaheadParams.init_synced(ps))):
    ctx.fail('init from fast parameters alone differs')
  ip = optax.LookaheadParams.init_synced(ps)
  if not close(leaves_of(ip.fast) + leaves_of(ip.slow), t.vals(9) * 2, 0, 0):
    ctx.fail('init_synced does not copy the parameters')


def rejects(ctx):
  for k in (0, -1, -5):
    try:
      optax.lookahead(optax.sgd(0.1), k, 0.5)
    except ValueError:
      ctx.transitions += 1
      continue
    ctx.fail('a synchronisation period of %d was accepted' % k)
  ctx.states += 1


def UNITS(tier):
  T = tier == 'thorough'
  u = [('rejects', rejects, {})]
  both = (False, True)
  for inner in inners():
    n = inner[0]
    u.append(('model-' + n, histories, dict(
        cases=[(inner, k, 0.5, r) for k in (1, 2, 3) for r in both], letters='ab', depth=7 if T else 6,
        tree='scalar', against='model')))
    u.append(('real-' + n, histories, dict(
        cases=[(inner, k, a, r) for k, a in ((2, 0.3), (3, 1.0)) for r in both], letters='az', depth=8 if T else 5,
        tree='dict', start='apart')))
    u.append(('free-' + n, anyparams, dict(
        cases=[(inner, k, 0.3, r) for k in (1, 2) for r in both], letters='ab' if T else 'a', depth=5 if T else 4,
        tree='pair')))
  for n in ('mom', 'adamw'):
    inner = inners(n)[0]
    u.append(('grid-' + n, histories, dict(
        cases=[(inner, k, a, r) for k in (1, 2, 4) for a in (0., 0.1, 0.5, 1.0, 1.5) for r in both],
        letters='ab', depth=5, tree='pair')))
    u.append(('long-' + n, long, dict(inner=inner, ks=(1, 2, 3, 4, 5, 6, 8, 10) + ((25, 100) if T else ()))))
    u.append(('eager-' + n, histories, dict(cases=[(inner, 2, 0.5, r) for r in both], letters='ab', depth=4,
                                            tree='nest', mode='eager')))
    u.append(('x32-' + n, histories, dict(cases=[(inner, 2, 0.5, r) for r in both], letters='ab', depth=5,
                                          tree='dict', rtol=1e-3, atol=1e-4, against='model', x64=False)))
    # A non-finite gradient does not reach the slow weights before a synchronisation.
    u.append(('nan-' + n, histories, dict(cases=[(inner, k, 0.5, r) for k in (2, 3) for r in both], letters='aN',
                                          depth=6, tree='pair')))
    for tree in ('one', 'pair'):
      u.append(('inf-%s-%s' % (n, tree), histories, dict(cases=[(inner, k, 0.5, r) for k in (2, 3) for r in both],
                                                        letters='aFM', depth=5 if T else 4, tree=tree)))
  for tree in ALL:
    u.append(('tree-' + tree, histories, dict(cases=[(inners('mom')[0], 2, 0.3, r) for r in both], letters='ab',
                                              depth=5 if T else 4, tree=tree)))
    for k, r in ((1, True), (2, False), (3, True)):
      u.append(('synced-%s-%d' % (tree, k), synced, dict(tree=tree, inner=inners('adam')[0], k=k, a=0.3, reset=r)))
  for tree in LARGE:
    u.append(('tree-' + tree, histories, dict(cases=[(inners('mom')[0], 2, 0.3, r) for r in both], letters='ab', depth=4, tree=tree)))
  for reset in (False, True):
    for name in ('mom', 'adamw') if T else ('mom',):
      u.append(('late-%s-%s' % (name, reset), late, dict(inner=inners(name)[0], reset=reset, starts=sorted(
          {2**k + d for k in (range(3, 31) if T else (7, 8, 15, 16, 24, 30)) for d in (-2, -1)}))))
  return u
