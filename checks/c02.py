"""C02: init and update are pure; runs can be saved, resumed and interleaved."""
import copy
import itertools
import pickle

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc import catalog
from mc.explore import canon_sut
from mc.trees import Tree, grads, ALL

ASSUMPTIONS = ['gradient values outside the alphabet behave like those in it',
               'the XLA CPU compiler is deterministic for equal programs']


def fingerprint(x):
  """Structure and bytes of any pytree, containers included."""
  return str(jax.tree_util.tree_structure(x)).encode() + b'#' + canon_sut(x)


def host(x):
  """The same tree with numpy leaves (writable copies)."""
  return jax.tree_util.tree_map(lambda l: np.array(l), x)


def record(tx, step, gs, hist, ps):
  s = tx.init(ps)
  out = []
  for x in hist:
    u, s = step(gs[x], s, ps)
    out.append((fingerprint(u), fingerprint(s)))
  return out


def prepare(name, tree, letters='abz'):
  t = Tree(tree)
  sy = catalog.Sys(name, t)
  return t, sy, sy.params(), {x: sy.grad(g) for x, g in grads(t, letters)}


def purity(ctx, name, tree, depth, mode):
  """Every history; each call repeated, arguments compared before and after."""
  t, sy, ps, gs = prepare(name, tree)
  if sy.skip():
    return
  tx = catalog.make(name)
  step = jax.jit(tx.update) if mode == 'jit' else tx.update
  hp, hg = host(ps), {x: host(g) for x, g in gs.items()}
  i0 = fingerprint(tx.init(ps))
  before = fingerprint(hp)
  if fingerprint(tx.init(hp)) != i0:
    ctx.fail('%s: init of numpy parameters differs' % name)
  if fingerprint(hp) != before:
    ctx.fail('%s: init changed its argument' % name)
  stack = [((), tx.init(ps))]
  ctx.states += 1
  first = {}
  while stack:
    hist, s = stack.pop()
    for x in gs:
      # Writable numpy arrays are passed too, so that writing to them shows.
      fps = (fingerprint(gs[x]), fingerprint(s), fingerprint(ps))
      u, n = step(gs[x], s, ps)
      fu = (fingerprint(u), fingerprint(n))
      first[hist + (x,)] = fu
      if x == 'a' or len(hist) < 2:
        hs = host(s)
        hu = step(hg[x], hs, hp)
        if (fingerprint(hg[x]), fingerprint(hs), fingerprint(hp)) != fps:
          ctx.fail('%s: update changed one of its arguments after %s' % (name, hist + (x,)))
        if fingerprint(step(hg[x], hs, hp)) != fingerprint(hu):
          ctx.fail('%s: the same call on numpy arrays gave another result after %s' % (name, hist + (x,)))
      u2, n2 = step(gs[x], s, ps)
      ctx.transitions += 1
      if (fingerprint(u2), fingerprint(n2)) != fu:
        ctx.fail('%s: the same call gave another result after %s' % (name, hist + (x,)))
      if (fingerprint(gs[x]), fingerprint(s), fingerprint(ps)) != fps:
        ctx.fail('%s: update changed one of its arguments after %s' % (name, hist + (x,)))
      if len(hist) + 1 < depth:
        stack.append((hist + (x,), n))
        ctx.states += 1
      else:
        ctx.traces += 1
        ctx.outcomes.add(fu[0][-40:])
  if fingerprint(tx.init(ps)) != i0:
    ctx.fail('%s: init gives another state after updates were made' % name)
  # The whole tree again, in another order, on a new instance.
  tx2 = catalog.make(name)
  step2 = jax.jit(tx2.update) if mode == 'jit' else tx2.update
  for hist in list(itertools.product(reversed(list(gs)), repeat=depth))[:: 1 if depth < 3 else 4]:
    s = tx2.init(ps)
    for i, x in enumerate(hist):
      u, s = step2(gs[x], s, ps)
      ctx.transitions += 1
      if (fingerprint(u), fingerprint(s)) != first[hist[:i + 1]]:
        ctx.fail('%s: a new instance behaves differently at step %d of %s' % (name, i, hist))
    ctx.traces += 1
  ctx.sample({'transformation': name, 'tree': tree, 'depth': depth})


def resume(ctx, name, tree, length, mode):
  """Crash points: save after every step, reload into a new process image."""
  t, sy, ps, gs = prepare(name, tree, 'abzL')
  if sy.skip():
    return
  hist = ('a', 'b', 'z', 'L', 'a', 'a', 'b')[:length]
  tx = catalog.make(name)
  step = jax.jit(tx.update) if mode == 'jit' else tx.update
  ref = []
  s = tx.init(ps)
  saved = [s]
  for x in hist:
    u, s = step(gs[x], s, ps)
    ref.append((fingerprint(u), fingerprint(s)))
    saved.append(s)
  for k in range(length + 1):
    for how in ('leaves', 'pickle'):
      new = catalog.make(name)
      nstep = jax.jit(new.update) if mode == 'jit' else new.update
      if how == 'leaves':
        # numpy arrays in a file, structure from a new init
        blob = [np.asarray(l).copy() for l in jax.tree_util.tree_leaves(saved[k])]
        td = jax.tree_util.tree_structure(new.init(ps))
        if td.num_leaves != len(blob):
          ctx.fail('%s: the state after %d steps has %d leaves, a new one %d' % (name, k, len(blob), td.num_leaves))
        s = jax.tree_util.tree_unflatten(td, blob)
      else:
        s = pickle.loads(pickle.dumps(jax.device_get(saved[k])))
      for i in range(k, length):
        u, s = nstep(gs[hist[i]], s, ps)
        ctx.transitions += 1
        if (fingerprint(u), fingerprint(s)) != ref[i]:
          ctx.fail('%s: a run saved after step %d and resumed (%s) differs at step %d' % (name, k, how, i + 1))
      ctx.traces += 1
    ctx.states += 1


def interleave(ctx, name, trees, mode, n):
  """All interleavings of two runs (possibly of different trees) on one object."""
  tx = catalog.make(name)
  step = jax.jit(tx.update) if mode == 'jit' else tx.update
  runs = []
  for tree, hist in zip(trees, (('a', 'b', 'z')[:n], ('z', 'L', 'a')[:n])):
    t, sy, ps, gs = prepare(name, tree, 'abzL')
    if sy.skip():
      return
    fresh = catalog.make(name)
    fstep = jax.jit(fresh.update) if mode == 'jit' else fresh.update
    runs.append((ps, gs, hist, record(fresh, fstep, gs, hist, ps)))
  # an interleaving = the positions of run 0's n+1 events (init and n updates)
  for pos in itertools.combinations(range(2 * (n + 1)), n + 1):
    if mode == 'eager':
      # a new object each time: nothing is remembered from earlier orders
      tx = catalog.make(name)
      step = tx.update
    state, at = [None, None], [0, 0]
    for e in range(2 * (n + 1)):
      r = 0 if e in pos else 1
      ps, gs, hist, ref = runs[r]
      if state[r] is None:
        state[r] = tx.init(ps)
        continue
      u, state[r] = step(gs[hist[at[r]]], state[r], ps)
      ctx.transitions += 1
      if (fingerprint(u), fingerprint(state[r])) != ref[at[r]]:
        ctx.fail('%s: run %d is disturbed by the other one in interleaving %s' % (name, r, pos))
      at[r] += 1
    ctx.traces += 1
  ctx.states += 1


def scribble(x, seen):
  """Overwrites every mutable container of a pytree in place."""
  if id(x) in seen:
    return
  seen.add(id(x))
  if isinstance(x, dict):
    for k, v in list(x.items()):
      scribble(v, seen)
      x[k] = 'scribble'
  elif isinstance(x, (list, tuple)):
    for v in x:
      scribble(v, seen)
    if isinstance(x, list):
      x[:] = ['scribble'] * len(x)


def owned(ctx, name, tree, mode):
  """Containers of the states of one run, changed in place, belong to that run only."""
  t, sy, ps, gs = prepare(name, tree, 'abz')
  if sy.skip():
    return
  hist = 'abz'
  fresh = catalog.make(name)
  ref = record(fresh, jax.jit(fresh.update) if mode == 'jit' else fresh.update, gs, hist, ps)
  init = fingerprint(catalog.make(name).init(ps))
  tx = catalog.make(name)
  step = jax.jit(tx.update) if mode == 'jit' else tx.update
  for cut in range(len(hist) + 1):
    # a run up to the cut, all of whose states are then destroyed ...
    mine = jax.tree_util.tree_map(lambda x: x, ps)
    s = tx.init(mine)
    trash = [s]
    for x in hist[:cut]:
      _, s = step(gs[x], s, ps)
      trash.append(s)
    other = tx.init(ps)
    seen = set()
    for x in trash:
      scribble(x, seen)
    # ... does not reach a run that had started, or the next one
    for get in (lambda: other, lambda: tx.init(ps)):
      s = get()
      if fingerprint(s) != init:
        ctx.fail('%s: changing the containers of one state in place changes the initial state of another run' % name, cut=cut)
      for i, x in enumerate(hist):
        u, s = step(gs[x], s, ps)
        ctx.transitions += 1
        if (fingerprint(u), fingerprint(s)) != ref[i]:
          ctx.fail('%s: changing the containers of one run in place changes another one at step %d' % (name, i + 1), cut=cut)
    # the containers of the parameters stay with the caller
    s = tx.init(mine)
    for i, x in enumerate(hist[:cut]):
      u, s = step(gs[x], s, mine)
    want = fingerprint(s)
    scribble(mine, set())
    if fingerprint(s) != want:
      ctx.fail('%s: the state holds the containers of the parameters' % name, cut=cut)
    ctx.traces += 1
  ctx.states += 1


def branch(ctx, name, tree):
  """Continuing twice from one saved state: the branches do not meet."""
  t, sy, ps, gs = prepare(name, tree, 'abzL')
  if sy.skip():
    return
  tx = catalog.make(name)
  s = tx.init(ps)
  for x in 'ab':
    _, s = tx.update(gs[x], s, ps)
  def go(hist):
    c, out = s, []
    for x in hist:
      u, c = tx.update(gs[x], c, ps)
      out.append((fingerprint(u), fingerprint(c)))
      ctx.transitions += 1
    return out
  hists = ['az', 'bL', 'za', 'Lb']
  first = [go(h) for h in hists]
  again = [go(h) for h in reversed(hists)][::-1]
  if first != again:
    ctx.fail('%s: branching twice from one state gives different results' % name)
  ctx.states += 1
  ctx.traces += len(hists)


def many(ctx, fn, names, **kw):
  for n in names:
    fn(ctx, n, **kw)


def UNITS(tier):
  T = tier == 'thorough'
  u = []
  for name in catalog.CATALOG:
    u.append(('purity-eager-' + name, purity, dict(name=name, tree='pair', depth=3 if T else 2, mode='eager')))
    u.append(('purity-jit-' + name, purity, dict(name=name, tree='dict', depth=5 if T else 4, mode='jit')))
    u.append(('resume-' + name, resume, dict(name=name, tree='nest' if T else 'pair', length=7 if T else 5, mode='eager' if T else 'jit')))
    u.append(('inter-' + name, interleave, dict(name=name, trees=('dict', 'pair') if not T else ('nest', 'dict'),
                                                mode='jit', n=3)))
    u.append(('inter-swap-' + name, interleave, dict(name=name, trees=('mv', 'vm'), mode='eager', n=2 if T else 1)))
    u.append(('inter-eager-' + name, interleave, dict(name=name, trees=('pair', 'pair'), mode='eager', n=2 if T else 1)))
    u.append(('owned-' + name, owned, dict(name=name, tree='dict', mode='jit' if not T else 'eager')))
    u.append(('branch-' + name, branch, dict(name=name, tree='pair')))
    if T:
      for tree in ALL:
        u.append(('purity-%s-%s' % (tree, name), purity, dict(name=name, tree=tree, depth=3, mode='jit')))
  return u
