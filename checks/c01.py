"""C01: a chain equals its members applied one after the other."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc import catalog, custom
from mc.explore import canon_sut, canon
from mc.trees import Tree, grads, leaves_of, close, worst

ASSUMPTIONS = ['chains longer than enumerated behave like their pairs and triples',
               'gradient values outside the alphabet behave like those in it']

MEMBERS = {
    'clip': lambda: optax.clip(0.5), 'norm': lambda: optax.clip_by_global_norm(1.0),
    'trace': lambda: optax.trace(0.5, False), 'nest': lambda: optax.trace(0.7, True),
    'ema': lambda: optax.ema(0.5), 'adam': lambda: optax.scale_by_adam(0.5, 0.9),
    'rms': lambda: optax.scale_by_rms(0.5), 'std': lambda: optax.scale_by_stddev(0.5),
    'rss': lambda: optax.scale_by_rss(), 'decay': lambda: optax.add_decayed_weights(0.3),
    'trust': lambda: optax.scale_by_trust_ratio(0.1), 'sched': lambda: optax.scale_by_schedule(catalog.sched),
    'scale': lambda: optax.scale(-0.7), 'every': lambda: optax.apply_every(2),
    'center': lambda: optax.centralize(), 'noise': lambda: optax.add_noise(0.1, 0.5, 1),
    'zeronan': lambda: optax.zero_nans(), 'nonneg': lambda: optax.keep_params_nonnegative(),
    'agc': lambda: optax.adaptive_grad_clip(0.2), 'sm3': lambda: optax.scale_by_sm3(),
    'belief': lambda: optax.scale_by_belief(), 'radam': lambda: optax.scale_by_radam(0.5, 0.7),
    'yogi': lambda: optax.scale_by_yogi(), 'identity': lambda: optax.identity(),
    'sgd': lambda: optax.sgd(0.1, 0.9), 'adamw': lambda: optax.adamw(0.1),
    'masked': lambda: optax.masked(optax.add_decayed_weights(0.5), catalog.MASK),
    'finite': lambda: optax.apply_if_finite(optax.trace(0.5, False), 1),
}
NEED = ('decay', 'trust', 'nonneg', 'agc', 'adamw', 'masked')
_CACHE = {}


def member(n):
  if n not in _CACHE:
    tx = MEMBERS[n]()
    _CACHE[n] = (tx, jax.jit(tx.update))
  return _CACHE[n]


def sequence(ctx, names, tree, histories, mode, exact):
  """Chain of `names` against feeding the members one after the other."""
  t = Tree(tree)
  tx = optax.chain(*[member(n)[0] for n in names])
  step = jax.jit(tx.update) if mode == 'jit' else tx.update
  p = t.build(t.vals(9, 0.8))
  gs = {x: t.build(g) for x, g in grads(t, 'abzL')}
  for hist in histories:
    s = tx.init(p)
    ms = [member(n)[0].init(p) for n in names]
    if len(s) != len(ms):
      ctx.fail('chain%s has a state of %d members' % (names, len(s)))
    ctx.states += 1
    pt = p
    for i, x in enumerate(hist):
      for part, ref in zip(s, ms):
        if (canon_sut(part) != canon_sut(ref)) if exact else not close(leaves_of(part), leaves_of(ref), 1e-9, 1e-12):
          ctx.fail('chain%s: member state differs before step %d of %s' % (names, i, hist))
      u, s = step(gs[x], s, pt)
      v = gs[x]
      for j, n in enumerate(names):
        v, ms[j] = (member(n)[1] if mode == 'jit' else member(n)[0].update)(v, ms[j], pt)
      ctx.transitions += 1
      ok = canon_sut(u) == canon_sut(v) if exact else close(leaves_of(u), leaves_of(v), 1e-9, 1e-12)
      if not ok:
        ctx.fail('chain%s differs from its members in sequence at step %d of %s: %s' % (
            names, i, hist, worst(leaves_of(u), leaves_of(v))), history=hist)
      pt = optax.apply_updates(pt, v)
    ctx.traces += 1
    ctx.outcomes.add(canon_sut(u)[-40:])
  ctx.sample({'chain': list(names), 'histories': len(histories)})


def sequences(ctx, chains, tree, histories, mode='jit', exact=False):
  for c in chains:
    sequence(ctx, c, tree, histories, mode, exact)


def bracketings(xs):
  """Every way of grouping a sequence into nested chains."""
  if len(xs) == 1:
    yield xs[0]
    return
  for k in range(1, len(xs)):
    for a in bracketings(xs[:k]):
      for b in bracketings(xs[k:]):
        yield (a, b)


def nest(b):
  return optax.chain(nest(b[0]), nest(b[1])) if isinstance(b, tuple) else member(b)[0]


def grouping(ctx, chains, tree):
  """All bracketings, and the identity inserted everywhere, change no update."""
  t = Tree(tree)
  p = t.build(t.vals(9, 0.8))
  gs = {x: t.build(g) for x, g in grads(t, 'abz')}
  for names in chains:
    flat = optax.chain(*[member(n)[0] for n in names])
    variants = [('nested %s' % (b,), nest(b)) for b in bracketings(names)]
    for i in range(len(names) + 1):
      ms = [member(n)[0] for n in names]
      ms.insert(i, optax.identity())
      variants.append(('identity at %d' % i, optax.chain(*ms)))
      variants.append(('empty group at %d' % i, optax.chain(*(ms[:i] + [optax.chain(optax.identity())] + ms[i + 1:]))))
    variants.append(('single', optax.chain(flat)))
    hist = 'abza'
    ref = []
    s, pt = flat.init(p), p
    for x in hist:
      u, s = flat.update(gs[x], s, pt)
      ref.append(canon_sut(u))
      pt = optax.apply_updates(pt, u)
    for label, tx in variants:
      s, pt = tx.init(p), p
      for i, x in enumerate(hist):
        u, s = tx.update(gs[x], s, pt)
        ctx.transitions += 1
        if canon_sut(u) != ref[i]:
          ctx.fail('%s: %s gives a different update at step %d' % (names, label, i))
        pt = optax.apply_updates(pt, u)
      ctx.traces += 1
      ctx.states += 1


def rejects(ctx, chains):
  """A state of another length, or missing parameters, is a ValueError."""
  t = Tree('pair')
  p = t.build(t.vals(9))
  g = t.build(t.vals(1))
  for names in chains:
    tx = optax.chain(*[member(n)[0] for n in names])
    s = tx.init(p)
    bad = [list(s)[:k] for k in range(len(s))] + [list(s) + list(s)[:k] for k in range(1, len(s) + 1)]
    for b in bad:
      ctx.transitions += 1
      try:
        tx.update(g, b, p)
      except ValueError:
        continue
      ctx.fail('%s accepted a state of %d members' % (names, len(b)))
    need = any(n in NEED for n in names)
    ctx.transitions += 1
    for call in (lambda: tx.update(g, s), lambda: tx.update(g, s, None)):
      try:
        call()
        raised = False
      except ValueError:
        raised = True
      if raised != need:
        ctx.fail('%s without parameters: ValueError %s, expected %s' % (names, raised, need))
    tx.update(g, tuple(s), p)  # any sequence of the right length is a state
    ctx.states += 1
    ctx.traces += 1


def missing(ctx):
  """Every transformation that needs parameters says so; the others do not."""
  t = Tree('pair')
  for name in catalog.names(lack='k'):
    sy = catalog.Sys(name, t)
    tx = catalog.make(name)
    p = sy.params()
    s = tx.init(p)
    g = sy.grad(t.vals(1))
    for args in ((g, s), (g, s, None)):
      try:
        tx.update(*args)
        raised = False
      except ValueError:
        raised = True
      except TypeError:
        if len(args) == 3:
          raise
        raised = True  # called directly, the argument itself may be required
      ctx.transitions += 1
      if raised != ('p' in sy.t):
        ctx.fail('%s without parameters: ValueError %s, expected %s' % (name, raised, 'p' in sy.t))
    ctx.states += 1
    ctx.traces += 1


def written(ctx, kinds, steps=5):
  """Members written by users, whose states are any pytree, falsy ones included."""
  t = Tree('dict')
  p = t.build(t.vals(9))
  for ks in kinds:
    for mode in ('eager', 'jit'):
      if mode == 'jit' and any(k in custom.EAGER for k in ks):
        continue
      tx = optax.chain(optax.scale(0.5), *[custom.make(k) for k in ks], optax.identity())
      step = jax.jit(tx.update) if mode == 'jit' else tx.update
      s = tx.init(p)
      for i in range(steps):
        g = t.vals(i)
        u, s = step(t.build(g), s, p)
        f = 0.5 * np.prod([custom.factor(k, i) for k in ks])
        ctx.transitions += 1
        ctx.states += 1
        if not close(leaves_of(u), [f * x for x in g], 1e-6, 1e-12):
          ctx.fail('chain of user-written members with states %s, %s: update %d: %s' % (
              ks, mode, i + 1, worst(leaves_of(u), [f * x for x in g])))
        for k, part in zip(ks, s[1:]):
          n = custom.count(k, part)
          if n != custom.factor(k, i + 1) - 1:
            ctx.fail('chain of user-written members with states %s, %s: state %s after %d updates' % (ks, mode, part, i + 1))
      ctx.traces += 1


def UNITS(tier):
  T = tier == 'thorough'
  u = [('missing', missing, {})]
  M = list(MEMBERS)
  K = list(custom.ALLSTATES)
  for i in range(4):
    u.append(('written-%d' % i, written, dict(kinds=([(a,) for a in K] + [(a, b) for a in K for b in K])[i::4])))
  pairs = [(a, b) for a in M for b in M]
  n = 16
  for i in range(n):
    u.append(('pairs-%d' % i, sequences, dict(chains=pairs[i::n], tree='dict', histories=['abz', 'La'] + (['zab', 'bba'] if T else []),
                                              mode='eager', exact=True)))
  core = ['norm', 'nest', 'ema', 'adam', 'decay', 'trust', 'sched', 'every', 'clip', 'noise', 'center', 'rss']
  triples = [c for c in itertools.product(core, repeat=3)]
  if not T:
    triples = [c for c in itertools.permutations(core[:8], 3)]
  n = 16 if not T else 64
  for i in range(n):
    u.append(('triples-%d' % i, sequences, dict(chains=triples[i::n], tree='pair', histories=['aba'],
                                                mode='eager', exact=True)))
  for i in range(8):
    u.append(('jit-%d' % i, sequences, dict(chains=[p for p in itertools.permutations(core[:7], 2)][i::8], tree='dict',
                                            histories=[''.join(h) for h in itertools.product('abz', repeat=3 if not T else 4)])))
  groups = [c for k in (1, 2, 3) for c in itertools.permutations(['norm', 'nest', 'adam', 'decay', 'sched', 'every'][:5 if T else 4], k)]
  groups += [('norm', 'adam', 'decay', 'sched'), ('every', 'ema', 'trust', 'scale'), ('nest', 'clip', 'adam', 'rss')]
  if T:
    groups += [('norm', 'adam', 'decay', 'trust', 'sched'), ('every', 'ema', 'clip', 'nest', 'scale')]
  for i in range(8):
    u.append(('groups-%d' % i, grouping, dict(chains=groups[i::8], tree='pair')))
  for i in range(4):
    u.append(('rejects-%d' % i, rejects, dict(chains=([(a,) for a in M] + pairs[::5] + triples[::23])[i::4])))
  for i, c in enumerate([('norm', 'adam', 'decay', 'trust', 'sched'), ('zeronan', 'clip', 'nest', 'every', 'scale', 'nonneg'),
                         ('center', 'agc', 'sm3', 'ema', 'noise'), tuple(M)]):
    for tree in ('nest', 'ranks', 'scalar'):
      u.append(('long-%d-%s' % (i, tree), sequences, dict(chains=[c], tree=tree, histories=['abzaL', 'zzab'], mode='eager', exact=True)))
  return u
