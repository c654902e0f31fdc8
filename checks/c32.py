"""C32: second-order helpers agree with the full Hessian and Fisher diagonal."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc.trees import ALL, Tree, leaves_of

ASSUMPTIONS = ['losses outside the family are differentiated like those in it']


def flat(tree):
  ls = [np.asarray(l, np.float64).reshape(-1) for l in jax.tree_util.tree_leaves(tree)]
  return np.concatenate(ls) if ls else np.zeros(0)


def coeffs(n):
  """Full, indefinite, distinct second and third order coefficients."""
  i = np.arange(n * n).reshape(n, n)
  a = np.modf(0.6180339887498949 * (i + 1))[0] - 0.4
  a = a + a.T
  c = np.modf(0.3819660112501051 * (np.arange(n) + 3))[0] - 0.3
  d = np.modf(0.7548776662466927 * (np.arange(n) + 1))[0] - 0.5
  return a, c, d


def cat(p):
  return jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(p)])


class Poly:
  """x * (0.5 th'A th) + t * sum(c th^3 / 6) + d'th + (d'th)^3 / 6; x, t are sums over the batch."""

  def __init__(self, n, dtype=None):
    self.a, self.c, self.d = coeffs(n)
    self.dtype = dtype

  def loss(self, p, x, t):
    th = cat(p)
    a, c, d = [jnp.asarray(v, th.dtype) for v in (self.a, self.c, self.d)]
    l = jnp.dot(d, th)
    return jnp.sum(x) * 0.5 * th @ a @ th + jnp.sum(t) * jnp.sum(c * th**3) / 6 + l + l**3 / 6

  def grad(self, th, x, t):
    l = self.d @ th
    return x.sum() * self.a @ th + t.sum() * self.c * th**2 / 2 + self.d + self.d * l**2 / 2

  def hess(self, th, x, t):
    l = self.d @ th
    return x.sum() * self.a + t.sum() * np.diag(self.c * th) + np.outer(self.d, self.d) * l


class Diag(Poly):
  """Separable: the Hessian is diagonal with a zero and a negative entry."""

  def loss(self, p, x, t):
    out = 0.
    k = 0
    for l in jax.tree_util.tree_leaves(p):
      d = jnp.asarray(self.d[k:k + l.size].reshape(l.shape), l.dtype)
      out = out + jnp.sum(d * l**2) * jnp.sum(x) + jnp.sum(l**4) * jnp.sum(t)
      k += l.size
    return out

  def grad(self, th, x, t):
    return 2 * self.d * th * x.sum() + 4 * th**3 * t.sum()

  def hess(self, th, x, t):
    return np.diag(2 * self.d * x.sum() + 12 * th**2 * t.sum())


class Linear(Poly):
  """No curvature at all."""

  def loss(self, p, x, t):
    th = cat(p)
    return jnp.sum(x) * jnp.dot(jnp.asarray(self.d, th.dtype), th) + jnp.sum(t)

  def grad(self, th, x, t):
    return x.sum() * self.d

  def hess(self, th, x, t):
    return np.zeros((th.size, th.size))


class Neural(Poly):
  """A small network on the parameters; the oracle is central differences of its exact gradient in closed form."""

  def loss(self, p, x, t):
    th = cat(p)
    w = jnp.asarray(self.a, th.dtype)
    h = jnp.tanh(w @ th + jnp.sum(x))
    return 0.5 * jnp.sum((h * jnp.asarray(self.d, th.dtype) - jnp.mean(t))**2)

  def _h(self, th, x):
    return np.tanh(self.a @ th + x.sum())

  def grad(self, th, x, t):
    h = self._h(th, x)
    r = h * self.d - t.mean()
    return self.a.T @ (r * self.d * (1 - h**2))

  def hess(self, th, x, t):
    h = self._h(th, x)
    r = h * self.d - t.mean()
    g1 = 1 - h**2
    w = self.d**2 * g1**2 + r * self.d * (-2 * h * g1)
    return self.a.T @ (w[:, None] * self.a)


FAMILY = {'poly': Poly, 'diag': Diag, 'linear': Linear, 'neural': Neural}

DATA = [(np.array([0.7]), np.array([1.3])), (np.array([[0.2, -0.9], [0.4, 0.5]]), np.array([1., -2., 0.25])),
        (np.array([0.]), np.array([2.])), (np.array([-1.5]), np.array([0.]))]


def points(t):
  return [t.vals(9, 0.8), t.vals(4, -1.3), t.zeros(), t.hot(-1, 0.6)]


def agree(ctx, what, got, exp, rtol, order):
  g = flat(got)
  ctx.transitions += g.size
  if g.shape != exp.shape:
    ctx.fail('%s has %s entries instead of %s' % (what, g.shape, exp.shape))
  scale = max(1., np.abs(exp).max(initial=0.))
  bad = ~(np.abs(g - exp) <= rtol * scale)
  if bad.any():
    i = int(np.argmax(bad))
    ctx.fail('%s: entry %d is %r, expected %r' % (what, i, float(g[i]), float(exp[i])))
  ctx.outcomes.add((order, float(np.round(exp[-1], 5))) if exp.size else (order,))


def vectors(n, limit):
  eye = np.eye(n)
  idx = range(n) if n <= limit else [0, 1, n // 2, n - 2, n - 1]
  out = [eye[i] for i in idx]
  out += [np.ones(n), np.arange(n) - 0.5 * n, np.zeros(n), np.where(np.arange(n) % 2, 1., -1.) * 0.3]
  if n <= limit:
    out += [eye[i] - eye[j] for i, j in itertools.combinations(range(n), 2)][:40]
  return out


def second(ctx, tree, loss, mode, rtol=1e-9, dtype=None, limit=24, template=None):
  t = Tree(tree, template)
  n = int(sum(np.prod(s, dtype=np.int64) for s in t.shapes))
  model = FAMILY[loss](n)
  wrap = jax.jit if mode == 'jit' else (lambda f: f)
  hv = wrap(lambda v, p, x, y: optax.hvp(model.loss, v, p, x, y))
  hd = wrap(lambda p, x, y: optax.hessian_diag(model.loss, p, x, y))
  fd = wrap(lambda p, x, y: optax.fisher_diag(model.loss, p, x, y))
  many = jax.jit(jax.vmap(lambda v, p, x, y: cat(optax.hvp(model.loss, v, p, x, y)), (0, None, None, None)))
  for k, p in enumerate(points(t)):
    th = np.concatenate([l.reshape(-1) for l in p])
    tp = t.build(p, dtype)
    flt = jax.flatten_util.ravel_pytree(tp)[0].dtype
    for x, y in DATA[:2] if k else DATA:
      jx, jy = jnp.asarray(x, float), jnp.asarray(y, float)
      h, g = model.hess(th, x, y), model.grad(th, x, y)
      where = '%s on %s, point %d' % (loss, tree, k)
      d = hd(tp, jx, jy)
      if np.shape(d) != (n,):
        ctx.fail('hessian_diag returns shape %s for %d parameters' % (np.shape(d), n))
      agree(ctx, 'hessian_diag of ' + where, d, np.diag(h), rtol, 'hd')
      f = fd(tp, jx, jy)
      if np.shape(f) != (n,):
        ctx.fail('fisher_diag returns shape %s for %d parameters' % (np.shape(f), n))
      agree(ctx, 'fisher_diag of ' + where, f, g**2, rtol, 'fd')
      vs = np.array(vectors(n, limit))
      if mode == 'jit':
        rows = np.asarray(many(jnp.asarray(vs, flt), tp, jx, jy), np.float64)
        for v, r in zip(vs, rows):
          agree(ctx, 'hvp of %s with %s' % (where, v[:6]), r, h @ v, rtol, 'hvp')
        vs = vs[:1]
      for v in vs[:8]:
        r = hv(jnp.asarray(v, flt), tp, jx, jy)
        agree(ctx, 'hvp of %s with %s' % (where, v[:6]), r, h @ v, rtol, 'hvp')
      ctx.states += 1
      ctx.traces += 1
  ctx.sample({'loss': loss, 'tree': tree, 'parameters': n})


def supervised(ctx, sizes, batch, rtol):
  """A real two-layer network with inputs and targets, against the textbook Hessian by complex-step-free double loops."""
  nin, nh, nout = sizes
  r = lambda k, *s: np.modf(0.6180339887 * (np.arange(int(np.prod(s))) + 1) * (k + 1))[0].reshape(s) - 0.5
  p = {'w1': r(1, nin, nh), 'b1': r(2, nh), 'w2': r(3, nh, nout), 'b2': r(4, nout)}
  x, y = r(5, batch, nin), np.eye(nout)[np.arange(batch) % nout]

  def net(q, x):
    return jnp.tanh(x @ q['w1'] + q['b1']) @ q['w2'] + q['b2']

  def nll(q, x, y):
    return jnp.mean(optax.softmax_cross_entropy(net(q, x), y))
  names = ['b1', 'b2', 'w1', 'w2']  # dictionary order
  th = np.concatenate([p[k].reshape(-1) for k in names])

  def unflat(th):
    out, k = {}, 0
    for name in names:
      n = p[name].size
      out[name] = th[k:k + n].reshape(p[name].shape)
      k += n
    return out

  def np_grad(th):
    q = unflat(th)
    a = np.tanh(x @ q['w1'] + q['b1'])
    z = a @ q['w2'] + q['b2']
    s = np.exp(z - z.max(-1, keepdims=True))
    s /= s.sum(-1, keepdims=True)
    dz = (s - y) / batch
    da = dz @ q['w2'].T * (1 - a**2)
    g = {'w2': a.T @ dz, 'b2': dz.sum(0), 'w1': x.T @ da, 'b1': da.sum(0)}
    return np.concatenate([g[k].reshape(-1) for k in names])
  n = th.size
  h = np.zeros((n, n))
  for i in range(n):
    # Fourth-order central differences of the exact gradient: error about 1e-11.
    e = np.zeros(n)
    e[i] = 1e-3
    h[i] = (8 * (np_grad(th + e) - np_grad(th - e)) - np_grad(th + 2 * e) + np_grad(th - 2 * e)) / 12e-3
  tp = {k: jnp.asarray(v, float) for k, v in p.items()}
  jx, jy = jnp.asarray(x, float), jnp.asarray(y, float)
  for wrap in (lambda f: f, jax.jit):
    agree(ctx, 'hessian_diag of a network', wrap(lambda q: optax.hessian_diag(nll, q, jx, jy))(tp), np.diag(h), rtol, 'net')
    agree(ctx, 'fisher_diag of a network', wrap(lambda q: optax.fisher_diag(nll, q, jx, jy))(tp), np_grad(th)**2, rtol, 'net')
    hv = wrap(lambda v, q: optax.hvp(nll, v, q, jx, jy))
    for i in range(n):
      agree(ctx, 'hvp of a network', hv(jnp.asarray(np.eye(n)[i], float), tp), h[i], rtol, 'net')
  ctx.states += n
  ctx.traces += 1


def UNITS(tier):
  T = tier == 'thorough'
  u = []
  for tree in ALL:
    for loss in FAMILY:
      if tree == 'big' and not T and loss != 'poly':
        continue
      u.append(('%s-%s' % (loss, tree), second, dict(tree=tree, loss=loss, mode='jit')))
      if T or (tree in ('nest', 'dict', 'scalar') and loss in ('poly', 'neural')):
        if tree != 'big':
          u.append(('eager-%s-%s' % (loss, tree), second, dict(tree=tree, loss=loss, mode='eager', limit=10)))
  # Field orders that differ from insertion or alphabetical order.
  mixes = [{'z': np.zeros(2), 'a': np.zeros((2, 2)), 'm': np.zeros(())}, [{'b': np.zeros(3), 'a': np.zeros(1)}, (np.zeros(2), np.zeros((1, 2)))],
           {10: np.zeros(2), 2: np.zeros(3)}, ({'y': {'x': np.zeros((3, 1))}}, None, np.zeros((1, 1, 2)))]
  for i, mx in enumerate(mixes):
    for loss in ('poly', 'diag'):
      u.append(('mix%d-%s' % (i, loss), second, dict(tree='mix%d' % i, template=mx, loss=loss, mode='jit')))
  for loss in ('poly', 'diag', 'neural'):
    u.append(('f32-' + loss, second, dict(tree='dict', loss=loss, mode='jit', rtol=2e-5, x64=False)))
    u.append(('f32in64-' + loss, second, dict(tree='dict', loss=loss, mode='jit', rtol=2e-5, dtype='float32')))
  u.append(('mixed-dtype', second, dict(tree='pair', loss='diag', mode='jit', rtol=2e-5, dtype=['float32', 'float64'])))
  u.append(('bf16', second, dict(tree='pair', loss='linear', mode='jit', rtol=0.05, dtype='bfloat16')))
  u.append(('bf16-default', second, dict(tree='pair', loss='linear', mode='jit', rtol=0.05, dtype='bfloat16', x64=False)))
  u.append(('net', supervised, dict(sizes=(3, 4, 2), batch=5, rtol=1e-8)))
  u.append(('net1', supervised, dict(sizes=(1, 2, 3), batch=1, rtol=1e-8)))
  if T:
    u.append(('net-large', supervised, dict(sizes=(4, 8, 5), batch=12, rtol=1e-8)))
  return u
