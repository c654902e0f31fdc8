"""C36: finite gradients give finite updates, in single precision."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc import catalog
from mc.trees import Tree

ASSUMPTIONS = ['gradient magnitudes other than 0, 1e-12, 1 and 1e4 behave like those',
               'C04: mapped and looped execution agree with single calls']

# default settings only: constructor arguments are the required ones
DEFAULTS = {
    'adabelief': lambda: optax.adabelief(0.1), 'adagrad': lambda: optax.adagrad(0.1),
    'adam': lambda: optax.adam(0.1), 'adamw': lambda: optax.adamw(0.1),
    'fromage': lambda: optax.fromage(0.1), 'lamb': lambda: optax.lamb(0.1),
    'noisy_sgd': lambda: optax.noisy_sgd(0.1), 'radam': lambda: optax.radam(0.1),
    'rmsprop': lambda: optax.rmsprop(0.1), 'sgd': lambda: optax.sgd(0.1),
    'rmsprop_centered': lambda: optax.rmsprop(0.1, centered=True),
    'rmsprop_momentum': lambda: optax.rmsprop(0.1, momentum=0.9),
    'sgd_momentum': lambda: optax.sgd(0.1, 0.9),
    'sgd_nesterov': lambda: optax.sgd(0.1, 0.9, True),
    'sm3': lambda: optax.sm3(0.1), 'yogi': lambda: optax.yogi(0.1),
    'trace': lambda: optax.trace(0.9), 'ema': lambda: optax.ema(0.9),
    'scale_by_rss': optax.scale_by_rss, 'scale_by_rms': optax.scale_by_rms,
    'scale_by_stddev': optax.scale_by_stddev, 'scale_by_adam': optax.scale_by_adam,
    'scale_by_belief': optax.scale_by_belief, 'scale_by_yogi': optax.scale_by_yogi,
    'scale_by_radam': optax.scale_by_radam, 'scale_by_sm3': optax.scale_by_sm3,
    'scale_by_trust_ratio': optax.scale_by_trust_ratio,
    'add_decayed_weights': optax.add_decayed_weights,
    'apply_every': optax.apply_every, 'centralize': optax.centralize,
    'clip': lambda: optax.clip(1.0), 'clip_by_global_norm': lambda: optax.clip_by_global_norm(1.0),
    'adaptive_grad_clip': lambda: optax.adaptive_grad_clip(0.01),
    'keep_params_nonnegative': optax.keep_params_nonnegative,
    'add_noise': lambda: optax.add_noise(0.01, 0.55, 0),
    'dp_aggregate': lambda: optax.differentially_private_aggregate(1.0, 0.1, 0),
    'dpsgd': lambda: optax.dpsgd(0.1, 1.0, 0.1, 0),
    'multi_steps_adam': lambda: optax.MultiSteps(optax.adam(0.1), 3).gradient_transformation(),
    'finite_adam': lambda: optax.apply_if_finite(optax.adam(0.1), 3),
    'flatten_rmsprop': lambda: optax.flatten(optax.rmsprop(0.1, centered=True)),
    'masked_lamb': lambda: optax.masked(optax.lamb(0.1), lambda p: jax.tree_util.tree_map(lambda x: x.ndim < 2, p)),
    'inject_radam': lambda: optax.inject_hyperparams(optax.radam)(learning_rate=lambda n: 1. / (1. + n)),
    'lookahead_radam': lambda: optax.lookahead(optax.radam(0.1), 5, 0.5),
    'clipped_adam': lambda: optax.chain(optax.clip_by_global_norm(1.0), optax.adam(0.1)),
    'agc_sgd': lambda: optax.chain(optax.adaptive_grad_clip(0.01), optax.sgd(0.1, 0.9)),
}
# Parameters follow the updates, except for trust-ratio optimisers: those grow the
# parameters exponentially when the gradient never turns (by design), so that the
# parameters would not stay of moderate size.
CLOSED = ('adabelief', 'adagrad', 'adam', 'adamw', 'noisy_sgd', 'radam', 'rmsprop',
          'rmsprop_centered', 'rmsprop_momentum', 'sgd', 'sgd_momentum', 'sgd_nesterov', 'sm3', 'yogi',
          'keep_params_nonnegative', 'agc_sgd', 'clipped_adam')


def alphabet(t):
  """Letters: zero, tiny, one, minus one, large, and one non-zero entry among zeros."""
  mix = t.vals(2)
  return [('0', t.zeros()), ('e', [x * 1e-12 for x in mix]), ('1', t.full(1.)), ('-', t.full(-1.)),
          ('L', [x * 1e4 for x in mix]), ('h', t.hot(0, 1.))]


def system(name, tree):
  tx = DEFAULTS[name]()
  t = Tree(tree)
  batch = name in ('dp_aggregate', 'dpsgd')
  letters = alphabet(t)
  def stack(j):
    ls = [l[1][j] for l in letters]
    if batch:
      ls = [np.stack([x, -0.5 * x, 3. * x]) for x in ls]
    return np.stack(ls)
  table = t.build([stack(j) for j in range(t.n)], jnp.float32)
  return tx, t, table, [l[0] for l in letters]


def runner(name, tx, table, steps, closed):
  look = name.startswith('lookahead')
  def run(params, seq):
    if look:
      params = optax.LookaheadParams(fast=params, slow=params)
    state = tx.init(params)
    def body(carry, i):
      p, s, first = carry
      g = jax.tree_util.tree_map(lambda x: x[seq[i % seq.shape[0]]], table)
      u, s = tx.update(g, s, p)
      ok = jnp.array(True)
      for l in jax.tree_util.tree_leaves(u):
        ok = ok & jnp.all(jnp.isfinite(l))
      if closed:
        p = optax.apply_updates(p, u)
      first = jnp.where(ok | (first < steps), first, i)
      return (p, s, first), None
    (_, _, first), _ = jax.lax.scan(body, (params, state, jnp.int32(steps)), jnp.arange(steps, dtype=jnp.int32))
    return first
  return jax.jit(jax.vmap(run, in_axes=(None, 0)))


def start_params(t):
  out = [('normal', t.vals(9, 0.8)), ('zero', t.zeros()), ('tiny', t.vals(4, 1e-12)), ('large', t.vals(5, 1e4)),
         ('nonneg', [np.abs(x) for x in t.vals(3)])]
  return out


def seqs(n, length):
  return np.array(list(itertools.product(range(n), repeat=length)), np.int32)


def histories(ctx, names, tree, depth, cycle, steps):
  """All histories of `depth` letters, and every cycle of <= `cycle` letters repeated for `steps`."""
  for name in names:
    tx, t, table, letters = system(name, tree)
    if name.startswith('adaptive') or name.startswith('agc'):
      if any(len(s) > 4 for s in t.shapes):
        continue
    closed = name in CLOSED
    plans = [(seqs(len(letters), depth), depth)]
    plans += [(seqs(len(letters), c), steps) for c in range(1, cycle + 1)]
    for batch, n in plans:
      f = runner(name, tx, table, n, closed)
      for pname, pv in start_params(t):
        first = np.asarray(f(t.build(pv, jnp.float32), jnp.asarray(batch)))
        ctx.traces += len(batch)
        ctx.transitions += len(batch) * n
        ctx.states += len(batch) * n
        ctx.outcomes.add((name, pname, n))
        bad = np.nonzero(first < n)[0]
        if bad.size:
          i = bad[int(np.argmin(first[bad]))]
          ctx.fail('%s: a finite gradient history gave a non-finite update at step %d' % (name, int(first[i]) + 1),
                   parameters=pname, cycle=[letters[j] for j in batch[i]], histories=int(bad.size))
    ctx.sample({'system': name, 'letters': letters, 'depth': depth, 'cycles': cycle, 'steps': steps})
    ctx.extra['systems'] += 1


def direct(ctx, names, tree, depth):
  """The same by single compiled calls, without mapping or loops."""
  for name in names:
    tx, t, table, letters = system(name, tree)
    look = name.startswith('lookahead')
    step = jax.jit(tx.update)
    gs = [jax.tree_util.tree_map(lambda x: x[i], table) for i in range(len(letters))]
    for pname, pv in start_params(t)[:2]:
      p = t.build(pv, jnp.float32)
      if look:
        p = optax.LookaheadParams(fast=p, slow=p)
      stack = [(tx.init(p), ())]
      while stack:
        s, h = stack.pop()
        ctx.states += 1
        for i, g in enumerate(gs):
          u, s1 = step(g, s, p)
          ctx.transitions += 1
          hh = h + (letters[i],)
          for l in jax.tree_util.tree_leaves(u):
            if not np.isfinite(np.asarray(l)).all():
              ctx.fail('%s: non-finite update after %s' % (name, hh), parameters=pname, update=u)
          if len(hh) < depth:
            stack.append((s1, hh))
          else:
            ctx.traces += 1


def UNITS(tier):
  T = tier == 'thorough'
  names = list(DEFAULTS)
  trees = ('dict', 'nest') + (('ranks', 'scalar', 'one', 'many') if T else ())
  u = []
  for n in names:
    for tr in trees:
      d = (6 if T else 5) if tr == 'dict' else 4
      u.append(('%s-%s' % (n, tr), histories, dict(names=[n], tree=tr, depth=d, cycle=3 if T and tr == 'dict' else 2,
                                                   steps=20000 if T else 1500, x64=False)))
  for i in range(8):
    u.append(('direct-%d' % i, direct, dict(names=names[i::8], tree='dict', depth=4 if T else 3, x64=False)))
  return u
