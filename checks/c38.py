"""C38: symmetries: names, containers, order, layout, sign and scale.

Every transformation runs all histories twice, on a tree and on the renamed,
rearranged, flipped or rescaled tree; the results must correspond.
"""
import collections
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc import catalog
from mc.trees import Tree, Box, NT, grads, close

ASSUMPTIONS = ['values outside the alphabet behave like those in it',
               'C04: a compiled loop and single calls agree']

SHAPES = {'a': [(2, 3), (3,), (), (2, 1, 2)],
          'b': [(3,), (2, 2), (4, 2), (1,)],
          'c': [(), (), (2, 3, 2), (3, 2, 1, 2)]}
Point = collections.namedtuple('Point', ['z', 'a', 'm', 'b'])

# ---- containers: four leaves -> tree, keeping the order of the leaves ----
CONTAINERS = {
    'list': lambda l: list(l),
    'tuple': lambda l: tuple(l),
    'dict': lambda l: {'a': l[0], 'b': l[1], 'c': l[2], 'd': l[3]},
    'other names': lambda l: {'bias': l[0], 'kernel': l[1], 'w': l[2], 'z_10': l[3]},
    'ordered': lambda l: collections.OrderedDict([('z', l[0]), ('a', l[1]), ('m', l[2]), ('b', l[3])]),
    'namedtuple': lambda l: Point(*l),
    'nested': lambda l: {'a': [l[0], (l[1], None)], 'b': {'x': {'y': l[2]}, 'z': [l[3], [], {}]}},
    'right': lambda l: (l[0], (l[1], (l[2], (l[3],)))),
    'left': lambda l: [[[[l[0]], l[1]], l[2]], l[3]],
    'registered': lambda l: Box(l[0], [Box(l[1], {'k': l[2]}, 'u'), NT(x=l[3], y=None)]),
    'integer keys': lambda l: {0: l[0], 1: l[1], 2: l[2], 3: l[3]},
}

# Entries for which a symmetry is not promised.
NOISY = set(catalog.names(have='r'))
SIGNED = {'keep_params_nonnegative'}  # treats the two signs differently
BIASED = {'scale_by_yogi', 'yogi'}  # the momentum starts at a positive value
PERAXIS = {'centralize', 'adaptive_grad_clip', 'scale_by_sm3', 'scale_by_sm3_ema', 'sm3'}  # sees the axes
RANKED = {'masked', 'nested_wrappers'}  # the mask of the catalog looks at the rank
AXISFREE = {'scale_by_sm3', 'scale_by_sm3_ema', 'sm3'}  # treats all axes alike
# update(c g, c p) = c update(g, p)
LINEAR = ('identity', 'scale', 'scale_by_schedule', 'scale_by_schedule_poly', 'trace', 'trace_nesterov', 'ema', 'ema_raw',
          'add_decayed_weights', 'additive_weight_decay', 'scale_by_trust_ratio', 'apply_every', 'apply_every_1', 'centralize',
          'keep_params_nonnegative', 'zero_nans', 'sgd', 'sgd_momentum', 'chain_nested', 'inject_hyperparams_c', 'nested_wrappers')


def results(name, shapes, container, letters, depth, fwd=None, pscale=0.8):
  """All updates of all histories as leaves with a leading axis for the history."""
  tx = catalog.make(name)
  shp = SHAPES[shapes]
  t = Tree(shapes, [np.zeros(s) for s in shp])
  gs = dict(grads(t, letters))
  fwd = fwd or (lambda l: l)
  make = CONTAINERS[container]
  stack = [np.stack(x) for x in zip(*[fwd(gs[l]) for l in letters])]
  if 'g' in catalog.traits(name):
    stack = [np.stack([x, -0.3 * x, 2. * x], 1) for x in stack]
  table = make([jnp.asarray(x) for x in stack])
  p = make([jnp.asarray(x) for x in fwd(t.vals(9, pscale, 'pos' if name in SIGNED else 'mix'))])
  if 'k' in catalog.traits(name):
    p = optax.LookaheadParams(fast=p, slow=jax.tree_util.tree_map(lambda x: x * 0.5, p))
  seqs = np.array(list(itertools.product(range(len(letters)), repeat=depth)), np.int32)

  def run(seq):
    def body(s, i):
      g = jax.tree_util.tree_map(lambda x: x[i], table)
      u, s = tx.update(g, s, p)
      return s, u
    return jax.lax.scan(body, tx.init(p), seq)[1]
  out = jax.jit(jax.vmap(run))(jnp.asarray(seqs))
  return [np.asarray(l) for l in jax.tree_util.tree_leaves(out)], len(seqs)


def reverse_axes(x):
  return x[tuple(slice(None, None, -1) for _ in x.shape)]


def rotate_axes(x):
  for a in range(x.ndim):
    x = np.roll(x, 1, a)
  return x


def permute_even(x):
  for a in range(x.ndim):
    n = x.shape[a]
    x = np.take(x, np.r_[np.arange(0, n, 2), np.arange(1, n, 2)], a)
  return x


def on_leaf(f):
  return lambda leaves: [f(x) for x in leaves]


# name -> (forward on leaf lists, entries it does not apply to)
SYMMETRIES = {
    'sign': (on_leaf(np.negative), NOISY | SIGNED | BIASED),
    'reversed leaves': (lambda l: l[::-1], NOISY),
    'rotated leaves': (lambda l: l[1:] + l[:1], NOISY),
    'swapped leaves': (lambda l: [l[1], l[0], l[3], l[2]], NOISY),
    'reversed entries': (on_leaf(reverse_axes), NOISY),
    'rotated entries': (on_leaf(rotate_axes), NOISY),
    'reordered entries': (on_leaf(permute_even), NOISY),
    'transposed': (on_leaf(np.transpose), NOISY | (PERAXIS - AXISFREE)),
    'flattened leaves': (on_leaf(np.ravel), NOISY | PERAXIS | RANKED),
    'one more axis': (on_leaf(lambda x: x[..., None]), NOISY | PERAXIS | RANKED),
    'leading axis': (on_leaf(lambda x: x[None]), NOISY | PERAXIS | RANKED),
}


def check(ctx, name, what, ref, got, fwd, lead, letters, depth, atol=1e-13):
  """got must be the image of ref, history by history and step by step."""
  copies = len(ref) // 4
  if len(got) != len(ref):
    ctx.fail('%s, %s: %d update leaves instead of %d' % (name, what, len(got), len(ref)))
    return
  hists = list(itertools.product(letters, repeat=depth))
  for c in range(copies):
    r, g = ref[4 * c:4 * c + 4], got[4 * c:4 * c + 4]
    for h in range(lead):
      for k in range(depth):
        image = fwd([x[h, k] for x in r])
        for i, (a, b) in enumerate(zip(image, [x[h, k] for x in g])):
          if a.shape != b.shape or not close([b], [a], 1e-8, atol):
            ctx.fail('%s, %s: leaf %d of update %d does not correspond' % (name, what, i, k + 1),
                     history=hists[h][:k + 1], got=b, expected=a)
    ctx.transitions += lead * depth
  ctx.states += lead * depth
  ctx.traces += lead
  ctx.outcomes.add((name, what))


def containers(ctx, name, shapes, letters, depth):
  ref, n = results(name, shapes, 'list', letters, depth)
  for c in CONTAINERS:
    if c != 'list':
      got, _ = results(name, shapes, c, letters, depth)
      check(ctx, name, c, ref, got, lambda l: l, n, letters, depth)
  ctx.sample({'transformation': name, 'containers': list(CONTAINERS), 'histories': n})


def symmetries(ctx, name, shapes, letters, depth):
  ref, n = results(name, shapes, 'list', letters, depth)
  for s, (fwd, skip) in SYMMETRIES.items():
    if name in skip:
      continue
    got, _ = results(name, shapes, 'list', letters, depth, fwd)
    check(ctx, name, s, ref, got, fwd, n, letters, depth)
  ctx.sample({'transformation': name, 'shapes': shapes, 'histories': n})


def homogeneity(ctx, name, shapes, letters, depth):
  ref, n = results(name, shapes, 'list', letters, depth)
  for k in (-120, -20, -3, 1, 10, 120):
    fwd = on_leaf(lambda x: x * 2.**k)
    got, _ = results(name, shapes, 'list', letters, depth, fwd)
    check(ctx, name, 'scaled by 2^%d' % k, ref, [g * 2.**-k for g in got], lambda l: l, n, letters, depth)


def insertion(ctx, names, letters, depth):
  """The order in which the items of a dict were inserted does not matter (uncompiled)."""
  keys = ['a', 'b', 'c', 'd']
  t = Tree('a', [np.zeros(s) for s in SHAPES['a']])
  for name in names:
    tx = catalog.make(name)
    def build(ls, order):
      if 'g' in catalog.traits(name):
        ls = [np.stack([x, -0.3 * x, 2. * x]) for x in ls]
      return {keys[i]: jnp.asarray(ls[i]) for i in order}
    gs = dict(grads(t, letters))
    outs = []
    for order in ((0, 1, 2, 3), (3, 1, 0, 2), (2, 3, 0, 1)):
      p = {keys[i]: jnp.asarray(t.vals(9, 0.8)[i]) for i in order}
      if 'k' in catalog.traits(name):
        p = optax.LookaheadParams(fast=p, slow={k: 0.5 * x for k, x in p.items()})
      res, stack = {}, [(tx.init(p), ())]
      while stack:
        s, h = stack.pop()
        for l in letters:
          u, s1 = tx.update(build(gs[l], order), s, p)
          res[h + (l,)] = [np.asarray(x[k]) for x in ((u.fast, u.slow) if 'k' in catalog.traits(name) else (u,)) for k in keys]
          ctx.transitions += 1
          ctx.states += 1
          if len(h) + 1 < depth:
            stack.append((s1, h + (l,)))
          else:
            ctx.traces += 1
      outs.append(res)
      for h, us in res.items():
        if not close(us, outs[0][h], 1e-8, 1e-13):
          ctx.fail('%s: updates of a dict depend on the order in which its items were inserted' % name, history=h, order=order,
                   got=us, expected=outs[0][h])
    ctx.outcomes.add((name, 'insertion'))


def UNITS(tier):
  T = tier == 'thorough'
  u = []
  for n in catalog.CATALOG:
    slow = 'r' in catalog.traits(n)
    for sh in SHAPES if T else 'a':
      u.append(('symmetries-%s-%s' % (n, sh), symmetries,
                dict(name=n, shapes=sh, letters='azb' if not slow else 'ab', depth=(4 if T else 3) if not slow else 2)))
      u.append(('containers-%s-%s' % (n, sh), containers,
                dict(name=n, shapes=sh, letters='azL' if not slow else 'aL', depth=(3 if T else 2) if not slow else 2)))
    if not T:
      u.append(('symmetries-%s-b' % n, symmetries, dict(name=n, shapes='b', letters='aL', depth=2)))
    if n in LINEAR:
      for sh in 'ab':
        u.append(('scaled-%s-%s' % (n, sh), homogeneity, dict(name=n, shapes=sh, letters='azb', depth=4 if T else 3)))
  names = list(catalog.CATALOG)
  for i in range(8):
    u.append(('insertion-%d' % i, insertion, dict(names=names[i::8], letters='ab', depth=3 if T else 2)))
  return u
