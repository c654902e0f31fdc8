"""C04: eager, compiled, looped and batched execution agree."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc import catalog
from mc.trees import ALL, Tree, grads, close, leaves_of, worst

ASSUMPTIONS = ['double precision results agree within rtol 1e-7 (different fusion orders)',
               'gradient values outside the alphabet behave like those in it']


def stack(trees):
  return jax.tree_util.tree_map(lambda *xs: jnp.stack(xs), *trees)


def take(tree, i):
  return jax.tree_util.tree_map(lambda x: x[i], tree)


def modes(ctx, name, tree, letters, depth, dtype=None, rtol=1e-7, atol=1e-10, eager='all', bad=False):
  t = Tree(tree)
  sy = catalog.Sys(name, t, dtype)
  if sy.skip():
    return
  tx = catalog.make(name)
  ps = sy.params()
  gs = {x: sy.grad(g) for x, g in grads(t, letters)}
  jstep = jax.jit(tx.update)
  jinit = jax.jit(tx.init)

  def loop(p, gseq):
    def body(s, g):
      u, s = tx.update(g, s, p)
      return s, (u, s)
    return jax.lax.scan(body, tx.init(p), gseq)[1]
  jloop = jax.jit(loop)
  vloop = jax.jit(jax.vmap(loop, in_axes=(0, 0)))
  vstep = jax.jit(jax.vmap(tx.update))

  def same(a, b, what, hist, i):
    ctx.transitions += 1
    if not close(leaves_of(a), leaves_of(b), rtol, atol):
      ctx.fail('%s on %s: %s differs from the compiled step at step %d of %s: %s' % (
          name, tree, what, i + 1, ''.join(hist), worst(leaves_of(a), leaves_of(b))), history=hist)

  hists = list(itertools.product(letters, repeat=depth))
  ref = {}
  s0 = tx.init(ps)
  same(s0, jinit(ps), 'a compiled init', ('init',), -1)
  # reference: compiled step by step
  for h in hists:
    s = s0
    out = []
    for x in h:
      u, s = jstep(gs[x], s, ps)
      out.append((u, s))
    ref[h] = out
    ctx.states += depth
  # eager
  for h in hists if eager == 'all' else hists[1:2] + hists[-2:-1]:
    s = s0
    for i, x in enumerate(h):
      u, s = tx.update(gs[x], s, ps)
      same((u, s), ref[h][i], 'the eager update', h, i)
    ctx.traces += 1
  # one compiled loop
  for h in hists:
    us, ss = jloop(ps, stack([gs[x] for x in h]))
    for i in range(depth):
      same((take(us, i), take(ss, i)), ref[h][i], 'a compiled loop', h, i)
    ctx.traces += 1
  # all histories at once, as a batch of replicas (also with different parameters)
  if 'r' not in sy.t:
    allg = stack([stack([gs[x] for x in h]) for h in hists])
    allp = stack([ps] * len(hists))
    us, ss = vloop(allp, allg)
    for j, h in enumerate(hists):
      for i in range(depth):
        same((take(take(us, j), i), take(take(ss, j), i)), ref[h][i], 'a batched loop', h, i)
      ctx.traces += 1
    # replicas in different states stepped together
    states = [s0] + [ref[h][i][1] for h in hists[:6] for i in (0, depth - 1)]
    x = letters[0]
    alts = [ps, sy.params(11, 1.3)]
    pp = [alts[j % 2] for j in range(len(states))]
    us, ss = vstep(stack([gs[x]] * len(states)), stack(states), stack(pp))
    for j, s in enumerate(states):
      same((take(us, j), take(ss, j)), jstep(gs[x], s, pp[j]), 'a batched step', (x,), j)
    ctx.traces += 1
  ctx.outcomes.add((name, tree))
  ctx.sample({'transformation': name, 'tree': tree, 'histories': len(hists), 'modes': 'eager/jit/scan/vmap'})


def intern(tree, table, kind):
  """Leaves of equal content become one and the same array object."""
  def one(x):
    a = np.asarray(x)
    key = (a.dtype.str, a.shape, a.tobytes())
    if key not in table:
      table[key] = jnp.array(a) if kind == 'jax' else np.array(a)
    return table[key]
  return jax.tree_util.tree_map(one, tree)


def tied(ctx, name, tree, letters, depth):
  """Leaves, parameters, gradients and states that share arrays, against separate arrays in a compiled step."""
  t = Tree(tree)
  sy = catalog.Sys(name, t)
  if sy.skip():
    return
  first = [t.shapes.index(s) for s in t.shapes]
  equal = lambda leaves: [leaves[i] for i in first]
  ps = sy.params()
  td = jax.tree_util.tree_structure(ps)
  pl = jax.tree_util.tree_leaves(ps)
  ps = jax.tree_util.tree_unflatten(td, [pl[first[i % t.n]] for i in range(len(pl))])
  tx = catalog.make(name)
  jstep = jax.jit(tx.update)
  gs = {x: sy.grad(equal(g)) for x, g in grads(t, letters)}
  if not set('kg') & set(sy.t):
    gs['p'] = ps
  for h in itertools.product(gs, repeat=depth):
    for kind in ('jax', 'numpy'):
      table = {}
      s = r = tx.init(ps)
      for i, x in enumerate(h):
        v, r = jstep(gs[x], r, ps)
        g, s, p = (intern(y, table, kind) for y in (gs[x], s, ps))
        u, s = tx.update(g, s, p)
        ctx.transitions += 1
        if not close(leaves_of((u, s)), leaves_of((v, r)), 1e-7, 1e-10):
          ctx.fail('%s on %s: with leaves that are one and the same %s array, step %d of %s differs from the compiled step with'
                   ' separate ones: %s' % (name, tree, kind, i + 1, ''.join(h), worst(leaves_of((u, s)), leaves_of((v, r)))))
      ctx.traces += 1
    ctx.states += depth
  ctx.outcomes.add((name, tree, 'tied'))


SCHEDULES = {
    'constant': lambda: optax.constant_schedule(0.3),
    'poly': lambda: optax.polynomial_schedule(1., 0.1, 2.5, 7, 3),
    'poly0': lambda: optax.polynomial_schedule(1., 0.1, 2, 0),
    'polyneg': lambda: optax.polynomial_schedule(1., 0.1, 2, 6, -3),
    'linear': lambda: optax.linear_schedule(0., 2., 6, 2),
    'piecewise': lambda: optax.piecewise_constant_schedule(2., {3: 0.5, 7: 2., 8: 0.}),
    'piecewise_none': lambda: optax.piecewise_constant_schedule(2.),
    'exp': lambda: optax.exponential_decay(1., 4, 0.6, 3, end_value=0.2),
    'exp_stair': lambda: optax.exponential_decay(1., 4, 0.6, 2, True),
    'exp_grow': lambda: optax.exponential_decay(1., 4, 1.6, 0, True, 3.),
    'exp0': lambda: optax.exponential_decay(1., 0, 0.6),
    'exp_none': lambda: optax.exponential_decay(1., 4, 0.),
    'cosine': lambda: optax.cosine_decay_schedule(1., 9, 0.1),
    'interp_lin': lambda: optax.piecewise_interpolate_schedule('linear', 1., {2: 2., 5: 0.1, 9: 3.}),
    'interp_cos': lambda: optax.piecewise_interpolate_schedule('cosine', 1., {2: 2., 5: 0.1, 9: 3.}),
    'onecycle_lin': lambda: optax.linear_onecycle_schedule(20, 1.),
    'onecycle_cos': lambda: optax.cosine_onecycle_schedule(20, 1.),
    'join': lambda: optax.join_schedules([optax.linear_schedule(0., 1., 3), optax.constant_schedule(0.5),
                                          optax.exponential_decay(1., 2, 0.5)], [3, 6]),
    'warm_cos': lambda: optax.warmup_cosine_decay_schedule(0., 1., 4, 12, 0.1),
    'warm_exp': lambda: optax.warmup_exponential_decay_schedule(0., 1., 4, 3, 0.5, 1, True, 0.1),
    'sgdr': lambda: optax.sgdr_schedule([dict(init_value=0., peak_value=1., warmup_steps=2, decay_steps=6, end_value=0.1),
                                         dict(init_value=0.1, peak_value=.5, warmup_steps=1, decay_steps=7, end_value=0.)]),
}


def schedule(ctx, name, steps):
  f = SCHEDULES[name]()
  j = jax.jit(f)
  ns = sorted(set(list(range(steps)) + [steps + 10**k for k in range(0, 9)] + [2**31 - 2, 2**31 - 1]))
  batch = jnp.asarray(ns, jnp.int32)
  arrays = {'vmap': jax.vmap(f)(batch), 'jit(vmap)': jax.jit(jax.vmap(f))(batch)}
  arrays['scan'] = jax.lax.scan(lambda c, n: (c, jnp.asarray(f(n), float)), 0, batch)[1]
  for i, n in enumerate(ns):
    ref = float(f(n))
    vals = {'int32 array': f(jnp.asarray(n, jnp.int32)), 'jit': j(jnp.asarray(n, jnp.int32)),
            'numpy int32': f(np.int32(n)), 'jit of a python int': j(n)}
    for k, v in arrays.items():
      vals[k] = v[i] if np.ndim(v) else v
    if jax.config.jax_enable_x64:
      vals['int64 array'] = f(jnp.asarray(n, jnp.int64))
    for k, v in vals.items():
      ctx.transitions += 1
      if not close([np.asarray(v)], [np.asarray(ref)], 1e-6, 1e-7):
        ctx.fail('%s at step %d: %r as %s, %r as a Python integer' % (name, n, float(v), k, ref))
    ctx.states += 1
    ctx.outcomes.add(round(ref, 9))
  ctx.traces += len(vals)
  ctx.sample({'schedule': name, 'steps': len(ns)})


KINDS = {
    'python': lambda n: 0.5 / (1 + n),
    'f16': lambda n: jnp.where(n > 1, 1, 2) * np.float16(0.5),
    'f32': lambda n: np.float32(0.5) / (1 + jnp.asarray(n, jnp.float32)),
    'bf16': lambda n: jnp.asarray(0.5, jnp.bfloat16) / (1 + jnp.asarray(n, jnp.bfloat16)),
    'wide': lambda n: jnp.asarray(0.5, float) / (1 + jnp.asarray(n, float)),
    'constant': lambda n: 0.25,
    'numpy': lambda n: np.float64(0.25),
    'int': lambda n: jnp.where(n > 1, 1, 2),
}


def scheduled(ctx, kind, dtype, length):
  """Hyperparameters and step sizes from schedules of every type of value."""
  f = KINDS[kind]
  t = Tree('pair')
  ps = t.build(t.vals(9, 0.8), dtype)
  gseq = [t.build(g, dtype) for _, g in grads(t, 'abz')]
  tol = {'float16': 5e-3, 'bfloat16': 5e-2, 'float32': 1e-5}.get(str(jnp.dtype(dtype)), 1e-7)
  # a value computed in a narrow type may be kept wider by the compiler
  tol = max(tol, {'f16': 5e-3, 'bf16': 5e-2, 'f32': 1e-5}.get(kind, 0))
  txs = {
      'inject(sgd)': lambda: optax.inject_hyperparams(optax.sgd)(learning_rate=f),
      'inject(momentum)': lambda: optax.inject_hyperparams(optax.sgd)(learning_rate=0.1, momentum=f),
      'inject(decay)': lambda: optax.inject_hyperparams(optax.add_decayed_weights)(weight_decay=f),
      'sgd': lambda: optax.sgd(f),
      'adam': lambda: optax.adam(f),
      'schedule': lambda: optax.scale_by_schedule(f),
  }
  for label, make in txs.items():
    tx = make()
    jstep = jax.jit(tx.update)
    def body(s, g):
      u, s = tx.update(g, s, ps)
      return s, (u, s)
    loop = jax.jit(lambda s, gs: jax.lax.scan(body, s, gs)[1])
    for h in itertools.product(range(len(gseq)), repeat=length):
      s0 = tx.init(ps)
      us, ss = loop(s0, stack([gseq[i] for i in h]))
      se = sj = s0
      for k, i in enumerate(h):
        ue, se = tx.update(gseq[i], se, ps)
        uj, sj = jstep(gseq[i], sj, ps)
        ctx.transitions += 1
        for what, a in (('compiled', (uj, sj)), ('looped', (take(us, k), take(ss, k)))):
          if not close(leaves_of(a), leaves_of((ue, se)), tol, tol):
            ctx.fail('%s, schedule of %s values on %s: the %s step %d of %s differs from the eager one: %s' % (
                label, kind, dtype, what, k + 1, h, worst(leaves_of(a), leaves_of((ue, se)))))
      ctx.traces += 1
      ctx.states += length


def UNITS(tier):
  T = tier == 'thorough'
  u = []
  for name in catalog.CATALOG:
    u.append(('dict-' + name, modes, dict(name=name, tree='dict', letters='az', depth=4 if T else 3, eager='some' if not T else 'all')))
    u.append(('nest-' + name, modes, dict(name=name, tree='nest', letters='abL', depth=3 if T else 2, eager='some' if not T else 'all')))
    u.append(('x32-' + name, modes, dict(name=name, tree='pair', letters='abz', depth=3 if T else 2, x64=False, rtol=2e-3, atol=2e-4, eager='some')))
    if 'finite' in name or name in ('zero_nans', 'apply_every', 'nested_wrappers'):
      u.append(('bad-' + name, modes, dict(name=name, tree='pair', letters='aNI', depth=4 if T else 3, eager='some')))
    u.append(('tied-' + name, tied, dict(name=name, tree='pair', letters='az', depth=3 if T else 2)))
    if T:
      u.append(('tied-many-' + name, tied, dict(name=name, tree='many', letters='az', depth=2)))
      for tree in ALL:
        u.append(('tree-%s-%s' % (tree, name), modes, dict(name=name, tree=tree, letters='ab', depth=3, eager='some')))
  for kind in KINDS:
    for dtype in ('float32', 'float64', 'bfloat16', 'float16'):
      u.append(('kind-%s-%s' % (kind, dtype), scheduled, dict(kind=kind, dtype=dtype, length=3 if T else 2)))
    u.append(('kind32-%s' % kind, scheduled, dict(kind=kind, dtype='float32', length=3 if T else 2, x64=False)))
  for name in SCHEDULES:
    u.append(('sched-' + name, schedule, dict(name=name, steps=400 if T else 60)))
    u.append(('sched32-' + name, schedule, dict(name=name, steps=400 if T else 40, x64=False)))
  return u
