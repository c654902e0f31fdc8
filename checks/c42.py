"""C42: leaves (and entries, units) do not influence one another.

Self-composition: all histories of one leaf are combined with all histories of
the others, and the updates of the leaf must depend on its own history only.
"""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc import catalog
from mc.trees import leaves_of, close, worst

ASSUMPTIONS = ['values outside the alphabets behave like those in them',
               'C04: a compiled loop and single calls agree']

MASK = lambda p: jax.tree_util.tree_map(lambda x: x.ndim != 1, p)
# leafwise: catalog entries without random draws and documented couplings
COUPLED = ('clip_by_global_norm', 'chain', 'apply_if_finite', 'apply_if_finite_p', 'nested_wrappers')
LEAFWISE = [n for n in catalog.names(lack='rg') if n not in COUPLED]
# entries of a leaf are also independent
PERLEAF = ('scale_by_trust_ratio', 'scale_by_trust_ratio_min', 'centralize', 'scale_by_sm3', 'scale_by_sm3_ema',
           'adaptive_grad_clip', 'fromage', 'lamb', 'lamb_sched', 'sm3', 'multi_steps_sched')
ENTRYWISE = [n for n in LEAFWISE if n not in PERLEAF]

# what a leaf can be given at a step: a factor on a fixed pattern, or a special value
OWN = [('0', 0., None), ('a', 1., None), ('-', -0.6, None), ('L', 3e4, None), ('t', 1e-5, None)]
OTHER = [('a', 1., None), ('0', 0., None), ('N', 1., np.nan), ('I', 1., np.inf), ('H', 1e30, None), ('x', -7., None)]


def pattern(shape, k):
  n = int(np.prod(shape, dtype=np.int64))
  v = 0.4 + np.modf(0.618034 * (np.arange(n) + 1) + 0.317 * k)[0]
  return (v * np.where((np.arange(n) + k) % 2, 1., -1.)).reshape(shape)


def value(shape, k, letter):
  v = pattern(shape, k) * letter[1]
  if letter[2] is not None:
    v = v.copy()
    v.reshape(-1)[-1] = letter[2]
  return v


def build(leaves):
  """leaves: list; the tree nests them so that order and containers vary."""
  return {'m': (leaves[0], {'k': leaves[1]}), 'z': [leaves[2]]}


SHAPES = {'mats': [(2, 2), (3, 2), (2, 1, 2)], 'mixed': [(), (2, 2), (3,)], 'same': [(2,), (2,), (2,)]}


def runner(name, tx, table, p):
  look = 'k' in catalog.traits(name)
  def run(seq):
    q = optax.LookaheadParams(fast=p, slow=jax.tree_util.tree_map(lambda x: 0.5 * x, p)) if look else p
    def body(s, i):
      g = jax.tree_util.tree_map(lambda t, j: t[j], table, jax.tree_util.tree_unflatten(
          jax.tree_util.tree_structure(table), list(i)))
      u, s = tx.update(g, s, q)
      return s, u
    return jax.lax.scan(body, tx.init(q), seq)[1]
  return jax.jit(jax.vmap(run))


def same_bits(a, b):
  return a.tobytes() == b.tobytes()


def leaves(ctx, names, shapes, depth, x32=False):
  """Updates of the victim leaf are the same bits whatever the other leaves get."""
  dt = jnp.float32 if x32 else None
  for name in names:
    for vic in range(3):
      sh = SHAPES[shapes]
      letters = [OWN if i == vic else OTHER for i in range(3)]
      table = build([jnp.asarray(np.stack([value(s, i + 1, l) for l in letters[i]]), dt) for i, s in enumerate(sh)])
      p = build([jnp.asarray(pattern(s, 7 + i) * 0.8, dt) for i, s in enumerate(sh)])
      tx = catalog.make(name)
      own = list(itertools.product(range(len(OWN)), repeat=depth))
      oth = list(itertools.product(range(len(OTHER)), repeat=depth))
      seqs = np.zeros((len(own), len(oth), depth, 3), np.int32)
      for a, h in enumerate(own):
        for b, k in enumerate(oth):
          for i in range(3):
            # the two other leaves get different histories (the second one reversed)
            seqs[a, b, :, i] = h if i == vic else (k if (i - vic) % 3 == 1 else k[::-1])
      out = runner(name, tx, table, p)(jnp.asarray(seqs.reshape(-1, depth, 3)))
      nl = len(jax.tree_util.tree_leaves(out))
      for l, u in enumerate(jax.tree_util.tree_leaves(out)):
        if l % 3 != vic:
          continue
        u = np.asarray(u).reshape((len(own), len(oth), -1))
        same = (u == u[:, :1]) | (np.isnan(u) & np.isnan(u[:, :1]))
        if not same.all():
          a, b = np.argwhere(~same.all(-1))[0]
          ctx.fail('%s: the updates of leaf %d depend on what the other leaves get' % (name, vic),
                   own=[OWN[i][0] for i in own[a]], others=[OTHER[i][0] for i in oth[b]],
                   reference=[OTHER[i][0] for i in oth[0]], got=u[a, b], expected=u[a, 0])
        if not np.isfinite(u[:, 0]).all():
          ctx.fail('%s: leaf %d has a non-finite update although its own gradients are finite' % (name, vic))
        ctx.outcomes.add((name, vic, nl))
      ctx.traces += len(own) * len(oth)
      ctx.states += len(own) * len(oth) * depth
      ctx.transitions += len(own) * len(oth) * depth
    ctx.sample({'transformation': name, 'shapes': shapes, 'own letters': [o[0] for o in OWN],
                'others': [o[0] for o in OTHER], 'depth': depth})


def entries(ctx, names, depth, n=5):
  """The same for the entries of one vector."""
  for name in names:
    if name == 'masked':
      continue
    tx = catalog.make(name)
    for vic in range(n):
      base = pattern((n,), 1)
      own = list(itertools.product(range(len(OWN)), repeat=depth))
      oth = list(itertools.product(range(len(OTHER)), repeat=depth))
      g = np.zeros((len(own), len(oth), depth, n))
      for a, h in enumerate(own):
        g[a, :, :, vic] = [base[vic] * OWN[i][1] for i in h]
      for b, k in enumerate(oth):
        for e in range(n):
          if e != vic:
            kk = k if (e - vic) % n % 2 else k[::-1]
            g[:, b, :, e] = [base[e] * OTHER[i][1] if OTHER[i][2] is None else OTHER[i][2] for i in kk]
      p = jnp.asarray(pattern((n,), 7))
      q = optax.LookaheadParams(fast=p, slow=0.5 * p) if 'k' in catalog.traits(name) else p
      def run(gs):
        def body(s, x):
          u, s = tx.update(x, s, q)
          return s, u
        return jax.lax.scan(body, tx.init(q), gs)[1]
      out = jax.jit(jax.vmap(run))(jnp.asarray(g.reshape(-1, depth, n)))
      for u in jax.tree_util.tree_leaves(out):
        u = np.asarray(u).reshape((len(own), len(oth), depth, n))[..., vic]
        same = (u == u[:, :1]) | (np.isnan(u) & np.isnan(u[:, :1]))
        if not same.all():
          a, b = np.argwhere(~same.all(-1))[0]
          ctx.fail('%s: the updates of entry %d depend on the other entries' % (name, vic),
                   own=[OWN[i][0] for i in own[a]], others=[OTHER[i][0] for i in oth[b]], got=u[a, b], expected=u[a, 0])
        if not np.isfinite(u).all():
          ctx.fail('%s: entry %d has a non-finite update although its own gradients are finite' % (name, vic))
      ctx.traces += len(own) * len(oth)
      ctx.states += len(own) * len(oth) * depth
      ctx.transitions += len(own) * len(oth) * depth
      ctx.outcomes.add((name, vic))
    ctx.sample({'transformation': name, 'entries': n, 'depth': depth})


def context(ctx, names, depth):
  """A leaf gets the same updates alone and at any place of any other tree."""
  shapes = [(), (2,), (2, 3)]
  for name in names:
    tx = catalog.make(name)
    step = jax.jit(tx.update)
    k = 'k' in catalog.traits(name)
    pair = lambda b: optax.LookaheadParams(fast=b, slow=jax.tree_util.tree_map(lambda x: 0.5 * x, b)) if k else b
    for s in shapes:
      p = jnp.asarray(pattern(s, 3))
      places = {
          'alone': lambda x, f: (x, lambda u: u),
          'in a tuple': lambda x, f: ((x,), lambda u: u[0]),
          'first of two': lambda x, f: ([x, f((3, 2), 1)], lambda u: u[0]),
          'last of four': lambda x, f: ({'a': f((), 2), 'b': {'c': f((2,), 3), 'd': None, 'e': f((1, 2, 2), 4)}, 'z': x},
                                        lambda u: u['z']),
          'between equals': lambda x, f: ((f(s, 5), x, f(s, 6)), lambda u: u[1]),
      }
      ref = {}
      for pl, mk in places.items():
        pt = pair(mk(p, lambda sh, i: jnp.asarray(pattern(sh, 10 + i)))[0])
        stack = [(tx.init(pt), ())]
        while stack:
          st, h = stack.pop()
          ctx.states += 1
          for i, l in enumerate(OWN):
            x = jnp.asarray(value(s, 1, l))
            g, pick = mk(x, lambda sh, j: jnp.asarray(pattern(sh, 20 + j + 3 * i) * (1. + 4 * i)))
            u, st1 = step(g, st, pt)
            ctx.transitions += 1
            us = [leaves_of(pick(u.fast)), leaves_of(pick(u.slow))] if k else [leaves_of(pick(u))]
            us = us[0] + (us[1] if k else [])
            hh = h + (l[0],)
            if pl == 'alone':
              ref[hh] = us
            elif not close(us, ref[hh], 1e-9, 1e-12):
              ctx.fail('%s: a leaf of shape %s gets other updates %s than alone: %s' % (name, s, pl, worst(us, ref[hh])),
                       history=hh)
            if len(hh) < depth:
              stack.append((st1, hh))
            else:
              ctx.traces += 1
      ctx.outcomes.add((name, s))
    ctx.sample({'transformation': name, 'places': list(places), 'depth': depth})


def UNITS(tier):
  T = tier == 'thorough'
  u = []
  for n in LEAFWISE:
    for k, sh in enumerate(SHAPES):
      if sh == 'same' or T or (len(n) + k) % 2 == 0:
        u.append(('leaves-%s-%s' % (n, sh), leaves, dict(names=[n], shapes=sh, depth=3 if T and sh == 'same' else 2)))
  for i in range(8):
    u.append(('entries-%d' % i, entries, dict(names=ENTRYWISE[i::8], depth=2)))
    u.append(('context-%d' % i, context, dict(names=[n for n in LEAFWISE if n != 'flatten'][i::8], depth=3 if T else 2)))
  for i in range(4):
    u.append(('leaves32-%d' % i, leaves, dict(names=LEAFWISE[i::4], shapes='mixed', depth=2, x32=True, x64=False)))
  return u

