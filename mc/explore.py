"""Exhaustive exploration of the real update functions against a model.

A state is a pair (state of the code under test, model state) reached by a
history of actions; since update is functional, exploration branches by simply
calling it again on an old state.  Equal pairs are merged (bitwise), which is
sound because init/update are deterministic functions of them (checked by C02).
"""
import numpy as np
import jax
import jax.numpy as jnp

from mc.trees import leaves_of, close, worst


def canon(x):
  """Bytes that identify a state of the code or of the model."""
  if isinstance(x, dict):
    return b'{' + b','.join(str(k).encode() + canon(x[k]) for k in sorted(x)) + b'}'
  if isinstance(x, (list, tuple)):
    return b'[' + b','.join(canon(v) for v in x) + b']'
  if x is None:
    return b'N'
  a = np.asarray(jax.device_get(x))
  return str(a.dtype).encode() + str(a.shape).encode() + a.tobytes()


def canon_sut(s):
  return b'|'.join(canon(l) for l in jax.tree_util.tree_leaves(s))


def set_counts(state, n):
  """Sets every int32 field called `count` in a state of the code under test."""
  if isinstance(state, tuple) and hasattr(state, '_fields'):
    vals = []
    for f in state._fields:
      v = getattr(state, f)
      vals.append(jnp.asarray(n, jnp.int32) if f == 'count' else set_counts(v, n))
    return type(state)(*vals)
  if isinstance(state, (list, tuple)):
    return type(state)(set_counts(v, n) for v in state)
  if isinstance(state, dict):
    return {k: set_counts(v, n) for k, v in state.items()}
  return state


def step_fn(tx, mode):
  if mode == 'jit':
    return jax.jit(lambda g, s, p: tx.update(g, s, p))
  if mode == 'eager':
    return lambda g, s, p: tx.update(g, s, p)
  if mode == 'noparams':
    return jax.jit(lambda g, s: tx.update(g, s))
  raise ValueError(mode)


class Spec:
  """One closed system: code, model, tree and parameters."""

  def __init__(self, tx, model, tree, params=None, mode='jit', rtol=1e-9,
               atol=1e-12, pass_params=None, build_params=None, dtype=None,
               view=None, label='', out_leaves=None, start=None, listed=None):
    self.tx, self.model, self.tree, self.mode = tx, model, tree, mode
    self.rtol, self.atol, self.view, self.label = rtol, atol, view, label
    self.dtype = dtype
    self.params = tree.vals(9, 0.8) if params is None else params
    self.build_params = build_params or (lambda p: tree.build(p, dtype))
    self.pass_params = model.needs_params if pass_params is None else pass_params
    self.out_leaves = out_leaves or leaves_of
    self.step = step_fn(tx, mode)
    self.start = start
    self.listed = listed  # (finding id, text, alternative model)
    self.same_struct = build_params is None
    self._cache = {}

  def g(self, name, leaves):
    if name not in self._cache:
      self._cache[name] = self.tree.build(leaves, self.dtype)
    return self._cache[name]

  def initial(self):
    ps = self.build_params(self.params)
    s = self.tx.init(ps)
    m = self.model.init(self.params)
    l = self.listed[2].init(self.params) if self.listed else None
    if self.start is not None:
      s, m = self.start(s, m)
      if l is not None:
        l = self.start(s, l)[1]
    return s, m, l

  def call(self, gt, s, pt):
    if self.pass_params:
      return self.step(gt, s, pt)
    if self.mode == 'noparams':
      return self.step(gt, s)
    return self.step(gt, s, None)


def _compare(ctx, spec, u, um, ul, hist, s, m):
  ul_ok = False
  if not close(u, um, spec.rtol, spec.atol):
    if spec.listed and ul is not None and close(u, ul, spec.rtol, spec.atol):
      ctx.known(spec.listed[0], spec.listed[1], history=hist)
      ul_ok = True
    else:
      ctx.fail('%s: update %d differs from the reference: %s' % (
          spec.label, len(hist), worst(u, um)),
               history=hist, got=u, expected=um, params=spec.params)
  if spec.view:
    msg = spec.view(s, m)
    if msg:
      ctx.fail('%s: after %s: %s' % (spec.label, hist, msg), history=hist)
  return ul_ok


def explore(ctx, spec, actions, depth, closed=False, merge=True, allow=None):
  """All histories over `actions` (name, g[, params]) of length <= depth."""
  acts = [(a[0], a[1], a[2] if len(a) > 2 else None) for a in actions]
  tree = spec.tree
  s0, m0, l0 = spec.initial()
  p0 = spec.params
  pt0 = spec.build_params(p0)
  if spec.view:
    msg = spec.view(s0, m0)
    if msg:
      ctx.fail('%s: initially: %s' % (spec.label, msg))
  seen = {}
  stack = [(s0, m0, l0, p0, pt0, ())]
  ctx.states += 1
  ptc = {}
  while stack:
    s, m, l, p, pt, hist = stack.pop()
    n_children = 0
    for name, g, pa in acts:
      if allow is not None and not allow(hist, name):
        continue
      n_children += 1
      h = hist + (name,)
      if pa is not None:
        if name not in ptc:
          ptc[name] = spec.build_params(pa)
        pv, pvt = pa, ptc[name]
      else:
        pv, pvt = p, pt
      ut, s1 = spec.call(spec.g(name, g), s, pvt)
      if spec.same_struct and jax.tree_util.tree_structure(ut) != tree.treedef:
        ctx.fail('%s: update %d has structure %s instead of that of the gradients %s' % (
            spec.label, len(h), jax.tree_util.tree_structure(ut), tree.treedef), history=h)
      u = spec.out_leaves(ut)
      mp = pv if spec.pass_params else None
      um, m1 = spec.model.update(g, m, mp)
      ul = l1 = None
      if l is not None:
        ul, l1 = spec.listed[2].update(g, l, mp)
      ctx.transitions += 1
      _compare(ctx, spec, u, um, ul, h, s1, m1)
      p1, pt1 = p, pt
      if closed:
        p1 = [a + b for a, b in zip(p, um)]
        pt1 = jax.tree_util.tree_map(lambda a, b: a + b, pt, ut)
        if not close(spec.out_leaves(pt1), p1, spec.rtol * 10, spec.atol * 10):
          ctx.fail('%s: parameters differ after %s' % (spec.label, h), history=h)
      if len(h) >= depth:
        ctx.traces += 1
        ctx.outcomes.add(canon([np.round(x, 6) for x in u])[-64:])
        if len(ctx.samples) < 1:
          ctx.sample({'system': spec.label, 'history': list(h),
                      'last_update': [x.reshape(-1)[:3].tolist() for x in u]})
        continue
      if merge:
        key = canon_sut(s1) + b'#' + canon(m1) + (canon(p1) if closed else b'')
        rem = depth - len(h)
        if seen.get(key, 0) >= rem:
          ctx.extra['merged'] += 1
          continue
        seen[key] = rem
      ctx.states += 1
      stack.append((s1, m1, l1, p1, pt1, h))
  ctx.extra['systems'] += 1


def lasso(ctx, spec, prefix, cycle, steps, closed=False, every=1):
  """One long ultimately periodic history, compared at every step."""
  s, m, l = spec.initial()
  p, pt = spec.params, spec.build_params(spec.params)
  seq = list(prefix)
  for i in range(steps):
    a = seq[i] if i < len(seq) else cycle[(i - len(seq)) % len(cycle)]
    name, g = a[0], a[1]
    ut, s = spec.call(spec.g(name, g), s, pt)
    mp = p if spec.pass_params else None
    um, m = spec.model.update(g, m, mp)
    ul = None
    if l is not None:
      ul, l = spec.listed[2].update(g, l, mp)
    ctx.transitions += 1
    ctx.states += 1
    if i % every == 0 or i == steps - 1:
      u = spec.out_leaves(ut)
      _compare(ctx, spec, u, um, ul, ('step %d of' % i,) + tuple(x[0] for x in cycle), s, m)
    if closed:
      p = [a + b for a, b in zip(p, um)]
      pt = jax.tree_util.tree_map(lambda a, b: a + b, pt, ut)
  ctx.traces += 1
  ctx.outcomes.add(canon([np.round(x, 6) for x in u])[-64:])
  ctx.extra['lassos'] += 1
