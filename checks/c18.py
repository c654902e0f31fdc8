"""C18: masked transforms exactly the selected leaves."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc import custom
from mc import models as m
from mc.explore import Spec, explore
from mc.std import actions_for
from mc.trees import ALL, MENU, Tree, close, grads, leaves_of, worst
from mc.wrap import inners, real, same, BY

ASSUMPTIONS = ['inner transformations and trees outside the lists behave like those in them']

MORE = {
    'decay': (lambda: optax.add_decayed_weights(0.3), m.Decay(0.3)),
    'clipnorm': (lambda: optax.clip_by_global_norm(1.0), m.ClipNorm(1.0)),
    'center': (lambda: optax.centralize(), m.Centralize()),
    'agc': (lambda: optax.adaptive_grad_clip(0.1), m.Agc(0.1)),
    'zeronan': (lambda: optax.zero_nans(), m.ZeroNans()),
    'nonneg': (lambda: optax.keep_params_nonnegative(), m.NonNeg()),
}


# representations of a truth value
BOOLS = {'tree': bool, 'fn': bool, 'np': np.bool_, 'array': np.array, 'jax': jnp.array}


def prefixes(x):
  """Every tree prefix of booleans of template x, with its expansion to leaves.

  Yields (mask, booleans per leaf of x).
  """
  leaves, treedef = jax.tree_util.tree_flatten(x)
  for b in (True, False):
    yield b, [b] * len(leaves)
  if jax.tree_util.treedef_is_leaf(treedef):
    return
  children, rebuild = split(x)
  if not children:
    yield x, []
    return
  opts = [[(c, [])] if c is None else list(prefixes(c)) for c in children]
  for combo in itertools.product(*opts):
    yield rebuild([c[0] for c in combo]), sum((c[1] for c in combo), [])


def split(x):
  if isinstance(x, dict):
    ks = sorted(x)
    return [x[k] for k in ks], lambda cs: dict(zip(ks, cs))
  if hasattr(x, '_fields'):
    return list(x), lambda cs: type(x)(*cs)
  return list(x), lambda cs: type(x)(cs)


def leaf_masks(tree):
  t = Tree(tree)
  for bits in itertools.product((True, False), repeat=t.n):
    yield jax.tree_util.tree_unflatten(t.treedef, bits), list(bits)


def pick(label):
  if label in MORE:
    return MORE[label]
  return BY[label][1:]


def check(ctx, label, tree, masks, letters, depth, style='tree', against='model', mode='jit',
          params=('p1', 'p2'), closed=False):
  t = Tree(tree)
  make, model = pick(label)
  if against == 'real':
    model = m.Real(make(), model.needs_params)
  for mask, bits in masks:
    assert len(bits) == t.n
    rep = BOOLS[style.split('-')[-1]]
    mk = jax.tree_util.tree_map(rep, mask)
    arg = (lambda p, mk=mk: mk) if style.startswith('fn') else mk
    view = None
    if against == 'real':
      view = lambda s, mm: None if same(s.inner_state, mm['inner']) else (
          'the wrapped state is not that of a tree of the selected leaves')
    sp = Spec(optax.masked(make(), arg), m.Masked(model, bits), t, mode=mode, view=view,
              label='masked(%s, %s)' % (label, mask))
    explore(ctx, sp, actions_for(model, t, letters, params), depth, closed=closed)


def computed(ctx, label, tree, letters, depth):
  """Masks computed from the leaves by a function."""
  fns = [('ndim', lambda x: x.ndim != 1), ('size', lambda x: np.size(x) > 2), ('all', lambda x: True),
         ('none', lambda x: False), ('mat', lambda x: x.ndim >= 2)]
  t = Tree(tree)
  make, model = pick(label)
  for name, f in fns:
    sp = Spec(optax.masked(make(), lambda p, f=f: jax.tree_util.tree_map(f, p)),
              m.Masked(model, f), t, label='masked(%s, fn %s)' % (label, name))
    explore(ctx, sp, actions_for(model, t, letters, ('p1', 'p2')), depth)


def shared(ctx, label, trees, letters, n):
  """One masked transformation used for two models, in every order of calls."""
  make, model = pick(label)
  for name, f in (('ndim', lambda x: x.ndim != 1), ('mat', lambda x: x.ndim >= 2),
                  ('size', lambda x: np.size(x) > 2)):
    law = m.Masked(model, f)
    ts = [Tree(t) for t in trees]
    gs = [[g for _, g in grads(t, letters)] for t in ts]
    ps = [t.vals(9, 0.8) for t in ts]
    for pos in itertools.combinations(range(2 * (n + 1)), n + 1):
      tx = optax.masked(make(), lambda p, f=f: jax.tree_util.tree_map(f, p))
      step = tx.update
      state, ms, at = [None, None], [None, None], [0, 0]
      for e in range(2 * (n + 1)):
        r = 0 if e in pos else 1
        if state[r] is None:
          state[r], ms[r] = tx.init(ts[r].build(ps[r])), law.init(ps[r])
          continue
        g = gs[r][at[r] % len(gs[r])]
        u, state[r] = step(ts[r].build(g), state[r], ts[r].build(ps[r]))
        want, ms[r] = law.update(g, ms[r], ps[r])
        at[r] += 1
        ctx.transitions += 1
        if not close(leaves_of(u), want, 1e-7, 1e-9):
          ctx.fail('masked(%s, fn %s) shared by %s: model %d is treated wrongly at step %d of order %s: %s' % (
              label, name, trees, r, at[r], pos, worst(leaves_of(u), want)))
      ctx.traces += 1
      ctx.states += 1


def partition(ctx, tree):
  """Complementary masks in a chain treat every leaf exactly once."""
  t = Tree(tree)
  for mask, bits in leaf_masks(tree) if t.n <= 5 else list(prefixes(MENU[tree]))[:32]:
    inv = jax.tree_util.tree_map(lambda b: not b, mask)
    tx = optax.chain(optax.masked(optax.trace(0.5, False), mask), optax.masked(optax.scale(-3.), inv))
    mod = m.Chain(m.Masked(m.Trace(0.5), bits), m.Masked(m.Scale(-3.), [not b for b in bits]))
    explore(ctx, Spec(tx, mod, t, mode='eager', label='partition %s' % (mask,)), grads(t, 'abN'), 2)


def callables(ctx):
  """The mask may be any callable."""
  for inner in (optax.scale(0.5), optax.trace(0.5, False), optax.add_decayed_weights(0.3)):
    for tree in ('pair', 'dict', 'nest'):
      for f in (lambda p: jax.tree_util.tree_map(lambda x: x.ndim != 1, p), lambda p: True, lambda p: False):
        custom.same_in_every_form(ctx, 'masked', f, lambda mask: optax.masked(inner, mask), jit=False, tree=tree)


def UNITS(tier):
  T = tier == 'thorough'
  u = [('callables', callables, {})]
  labels = [l for l, _, _ in inners()] + list(MORE)
  for label in labels:
    u.append(('dict-' + label, check, dict(label=label, tree='dict', masks=list(prefixes(MENU['dict'])),
                                           letters='ab', depth=5 if T else 3, against='real')))
    u.append(('scalar-' + label, check, dict(label=label, tree='scalar', masks=list(prefixes(MENU['scalar'])),
                                             letters='abz', depth=5 if T else 3)))
    u.append(('computed-' + label, computed, dict(label=label, tree='ranks', letters='ab', depth=4 if T else 2)))
    lm = list(leaf_masks('ranks'))
    u.append(('model-' + label, check, dict(label=label, tree='ranks', masks=lm if T else lm[::5], letters='ab',
                                            depth=2)))
  for label in ('mom', 'decay', 'adam', 'clipnorm'):
    for tree in ('nest', 'deep', 'vec', 'one', 'pair', 'dict'):
      ps = list(prefixes(MENU[tree]))
      k = 6 if len(ps) > 30 else 1
      step = 1 if T or label in ('mom', 'decay') else 5
      for i in range(k):
        u.append(('prefix-%s-%s-%d' % (label, tree, i), check, dict(
            label=label, tree=tree, masks=ps[i::k][::step], letters='ab', depth=3 if T else 2, mode='eager',
            params=('p1',))))
  for label in ('mom', 'decay'):
    u.append(('fn-' + label, check, dict(label=label, tree='dict', masks=list(prefixes(MENU['dict'])),
                                         letters='abN', depth=3, style='fn')))
    lm = list(leaf_masks('ranks'))
    for i in range(4):
      u.append(('leaf-%s-%d' % (label, i), check, dict(label=label, tree='ranks', masks=lm[i::4], letters='aN',
                                                       depth=2, mode='eager', params=('p1',))))
    for st in ('np', 'array', 'jax', 'fn-np', 'fn-jax'):
      for mode in ('eager', 'jit'):
        if (st, mode) != ('fn-jax', 'jit'):
          u.append(('bools-%s-%s-%s' % (label, st, mode), check, dict(
              label=label, tree='dict', masks=list(prefixes(MENU['dict'])), letters='aN', depth=2, style=st, mode=mode)))
  for label in ('mom', 'decay', 'adam', 'clipnorm'):
    for trees in (('mv', 'vm'), ('pair', 'mv')):
      u.append(('shared-%s-%s' % (label, trees[0]), shared, dict(label=label, trees=trees, letters='ab', n=4 if T else 2)))
  for tree in ALL:
    u.append(('partition-' + tree, partition, dict(tree=tree)))
  u.append(('closed', check, dict(label='adamw', tree='dict', masks=list(prefixes(MENU['dict'])), letters='ab',
                                  depth=6 if T else 5, closed=True, params=None)))
  return u
