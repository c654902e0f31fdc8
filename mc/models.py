"""Boring reference models, in float64 numpy, of every transformation.

A model maps lists of leaves to lists of leaves:
  init(params) -> state;  update(g, state, params) -> (updates, state)
States are dicts/lists that are never mutated, so exploration can branch.
"""
import math

import numpy as np

INT32_MAX = 2**31 - 1


def inc(c):
  return min(c + 1, INT32_MAX)


def zl(p):
  return [np.zeros(np.shape(x)) for x in p]


def ew(f, *ls):
  with np.errstate(all='ignore'):
    return [f(*xs) for xs in zip(*ls)]


class M:
  """Stateless by default."""
  needs_params = False

  def init(self, p):
    return {}

  def update(self, g, s, p=None):
    return self.f(g, p), s


class Identity(M):
  def f(self, g, p):
    return g


class Scale(M):
  def __init__(self, c):
    self.c = c

  def f(self, g, p):
    return ew(lambda x: self.c * x, g)


class Decay(M):
  needs_params = True

  def __init__(self, wd):
    self.wd = wd

  def f(self, g, p):
    return ew(lambda x, w: x + self.wd * w, g, p)


class Centralize(M):
  def f(self, g, p):
    def one(x):
      if x.ndim < 2:
        return x
      out = np.array(x)
      for i in range(x.shape[0]):
        out[i] = x[i] - np.sum(x[i]) / x[i].size
      return out
    return ew(one, g)


class Trace(M):
  def __init__(self, decay, nesterov=False):
    self.d, self.nest = decay, nesterov

  def init(self, p):
    return {'t': zl(p)}

  def update(self, g, s, p=None):
    t = ew(lambda x, t: x + self.d * t, g, s['t'])
    u = ew(lambda x, t: x + self.d * t, g, t) if self.nest else t
    return u, {'t': t}


class Ema(M):
  def __init__(self, decay, debias=True):
    self.d, self.debias = decay, debias

  def init(self, p):
    return {'count': 0, 'm': zl(p)}

  def update(self, g, s, p=None):
    n = inc(s['count'])
    m = ew(lambda x, m: (1 - self.d) * x + self.d * m, g, s['m'])
    with np.errstate(all='ignore'):
      u = ew(lambda m: m / (1 - np.float64(self.d)**n), m) if self.debias else m
    return u, {'count': n, 'm': m}


class Rms(M):
  def __init__(self, decay=0.9, eps=1e-8, init_value=0.):
    self.d, self.eps, self.iv = decay, eps, init_value

  def init(self, p):
    return {'v': ew(lambda x: np.full(np.shape(x), self.iv), p)}

  def update(self, g, s, p=None):
    v = ew(lambda x, v: (1 - self.d) * x * x + self.d * v, g, s['v'])
    return ew(lambda x, v: x / np.sqrt(v + self.eps), g, v), {'v': v}


class Stddev(M):
  def __init__(self, decay=0.9, eps=1e-8, init_value=0.):
    self.d, self.eps, self.iv = decay, eps, init_value

  def init(self, p):
    return {'m': zl(p), 'v': ew(lambda x: np.full(np.shape(x), self.iv), p)}

  def update(self, g, s, p=None):
    m = ew(lambda x, m: (1 - self.d) * x + self.d * m, g, s['m'])
    v = ew(lambda x, v: (1 - self.d) * x * x + self.d * v, g, s['v'])
    u = ew(lambda x, m, v: x / np.sqrt(np.maximum(v - m * m, 0) + self.eps), g, m, v)
    return u, {'m': m, 'v': v}


class Rss(M):
  def __init__(self, init_value=0.1, eps=1e-7):
    self.iv, self.eps = init_value, eps

  def init(self, p):
    return {'v': ew(lambda x: np.full(np.shape(x), self.iv), p)}

  def update(self, g, s, p=None):
    v = ew(lambda x, v: x * x + v, g, s['v'])
    u = ew(lambda x, v: np.where(v > 0, x / np.sqrt(np.where(v > 0, v, 1.) + self.eps), 0. * x), g, v)
    return u, {'v': v}


def _bc(b, n):
  return 1 - np.float64(b)**n


class Adam(M):
  def __init__(self, b1=0.9, b2=0.999, eps=1e-8, eps_root=0.0):
    self.b1, self.b2, self.eps, self.er = b1, b2, eps, eps_root

  def init(self, p):
    return {'count': 0, 'm': zl(p), 'v': zl(p)}

  def second(self, g, s):
    return ew(lambda x, v: (1 - self.b2) * x * x + self.b2 * v, g, s['v'])

  def quotient(self, m, v, n):
    return ew(lambda m, v: (m / _bc(self.b1, n)) / (
        np.sqrt(v / _bc(self.b2, n) + self.er) + self.eps), m, v)

  def update(self, g, s, p=None):
    n = inc(s['count'])
    m = ew(lambda x, m: (1 - self.b1) * x + self.b1 * m, g, s['m'])
    v = self.second(g, s)
    return self.quotient(m, v, n), {'count': n, 'm': m, 'v': v}


class Belief(Adam):
  def __init__(self, b1=0.9, b2=0.999, eps=0., eps_root=1e-16):
    super().__init__(b1, b2, eps, eps_root)

  def second(self, g, s):
    return ew(lambda x, m, v: (1 - self.b2) * (x - m)**2 + self.b2 * v,
              g, s['m'], s['v'])


class Yogi(Adam):
  """Yogi as published."""

  def __init__(self, b1=0.9, b2=0.999, eps=1e-3, eps_root=0.0, iv=1e-6):
    super().__init__(b1, b2, eps, eps_root)
    self.iv = iv

  def init(self, p):
    full = ew(lambda x: np.full(np.shape(x), self.iv), p)
    return {'count': 0, 'm': full, 'v': full}

  def second(self, g, s):
    return ew(lambda x, v: v - (1 - self.b2) * np.sign(v - x * x) * x * x, g, s['v'])


class YogiListed(Yogi):
  """The deviation recorded in known_findings.txt (signed squares squared)."""

  def second(self, g, s):
    return ew(lambda x, v: (1 - self.b2) * (np.sign(v - x * x) * x * x)**2
              + self.b2 * v, g, s['v'])


class Radam(Adam):
  def __init__(self, b1=0.9, b2=0.999, eps=1e-8, eps_root=0.0, threshold=5.0):
    super().__init__(b1, b2, eps, eps_root)
    self.th = threshold

  def rho(self, n):
    ri = 2. / (1 - self.b2) - 1
    bt = np.float64(self.b2)**n
    return ri, ri - 2. * n * bt / (1 - bt)

  def update(self, g, s, p=None):
    n = inc(s['count'])
    m = ew(lambda x, m: (1 - self.b1) * x + self.b1 * m, g, s['m'])
    v = self.second(g, s)
    ri, r = self.rho(n)
    if r >= self.th:
      k = np.sqrt((r - 4) * (r - 2) * ri / ((ri - 4) * (ri - 2) * r))
      u = ew(lambda q: k * q, self.quotient(m, v, n))
    else:
      u = ew(lambda m: m / _bc(self.b1, n), m)
    return u, {'count': n, 'm': m, 'v': v}


class SM3(M):
  def __init__(self, b1=0.9, b2=1.0, eps=1e-8):
    self.b1, self.b2, self.eps = b1, b2, eps

  def init(self, p):
    return {'mu': [[np.zeros(n) for n in np.shape(x)] or [np.zeros(())] for x in p],
            'nu': zl(p)}

  def update(self, g, s, p=None):
    c0, c1 = (1., 1.) if self.b2 == 1.0 else (1 - self.b2, self.b2)
    nus, mus = [], []
    with np.errstate(all='ignore'):
      for x, mu, nu in zip(g, s['mu'], s['nu']):
        acc = np.zeros(x.shape)
        if x.ndim < 2:
          acc = c0 * x * x + c1 * mu[0]
          new = [acc]
        else:
          low = np.full(x.shape, np.inf)
          for ax in range(x.ndim):
            shape = [1] * x.ndim
            shape[ax] = -1
            low = np.minimum(low, mu[ax].reshape(shape))
          acc = c0 * x * x + c1 * low
          new = [np.array([np.take(acc, i, axis=ax).max(initial=0.) for i in range(x.shape[ax])])
                 for ax in range(x.ndim)]
        up = np.where(acc > 0, x / np.sqrt(np.where(acc > 0, acc, 1.) + self.eps), 0.)
        nus.append((1 - self.b1) * up + self.b1 * nu)
        mus.append(new)
    return nus, {'mu': mus, 'nu': nus}


def norm(xs):
  with np.errstate(all='ignore'):
    return np.sqrt(sum([np.sum(np.square(np.asarray(x, np.float64))) for x in xs], 0.))


class TrustRatio(M):
  needs_params = True

  def __init__(self, min_norm=0.0):
    self.m = min_norm

  def f(self, g, p):
    def one(u, w):
      a, b = max(norm([w]), self.m), max(norm([u]), self.m)
      return u * (1.0 if a == 0 or b == 0 else a / b)
    return ew(one, g, p)


class BySchedule(M):
  def __init__(self, fn):
    self.fn = fn

  def init(self, p):
    return {'count': 0}

  def update(self, g, s, p=None):
    c = self.fn(s['count'])
    return ew(lambda x: c * x, g), {'count': inc(s['count'])}


class Clip(M):
  def __init__(self, d):
    self.d = d

  def f(self, g, p):
    return ew(lambda x: np.where(x > self.d, self.d, np.where(x < -self.d, -self.d, x)), g)


class ClipNorm(M):
  def __init__(self, m):
    self.m = m

  def f(self, g, p):
    n = norm(g)
    if n < self.m:
      return g
    return ew(lambda x: x / n * self.m, g)


def units_of(shape):
  """Index groups (as boolean masks) that are clipped together."""
  size = int(np.prod(shape, dtype=np.int64))
  idx = np.arange(size).reshape(shape)
  if sum(1 for d in shape if d != 1) <= 1:
    return [idx.reshape(-1)]
  if len(shape) in (2, 3):
    return [idx[(slice(None),) + rest].reshape(-1) for rest in np.ndindex(*shape[1:])]
  if len(shape) == 4:
    return [idx[..., k].reshape(-1) for k in range(shape[3])]
  raise ValueError(shape)


class Agc(M):
  needs_params = True

  def __init__(self, clipping, eps=1e-3):
    self.c, self.eps = clipping, eps

  def f(self, g, p):
    def one(x, w):
      out = np.array(x, np.float64).reshape(-1)
      fx, fw = x.reshape(-1), w.reshape(-1)
      for u in units_of(x.shape):
        limit = self.c * max(norm([fw[u]]), self.eps)
        n = norm([fx[u]])
        if not n < limit:
          out[u] = fx[u] * (limit / max(n, 1e-6))
      return out.reshape(x.shape)
    return ew(one, g, p)


class NonNeg(M):
  needs_params = True

  def f(self, g, p):
    return ew(lambda u, w: np.where(w + u < 0, -w, u), g, p)


class ZeroNans(M):
  def init(self, p):
    return {'found': [False for _ in p]}

  def update(self, g, s, p=None):
    return (ew(lambda x: np.where(np.isnan(x), 0., x), g),
            {'found': [bool(np.isnan(x).any()) for x in g]})


class ApplyEvery(M):
  def __init__(self, k):
    self.k = k

  def init(self, p):
    return {'i': 0, 'acc': zl(p)}

  def update(self, g, s, p=None):
    acc = g if s['i'] == 0 else ew(np.add, s['acc'], g)
    last = s['i'] == self.k - 1
    return (acc if last else zl(g)), {'i': (s['i'] + 1) % self.k, 'acc': acc}


class Chain(M):
  def __init__(self, *ms):
    self.ms = ms
    self.needs_params = any(m.needs_params for m in ms)

  def init(self, p):
    return [m.init(p) for m in self.ms]

  def update(self, g, s, p=None):
    out = []
    for m, st in zip(self.ms, s):
      g, st = m.update(g, st, p)
      out.append(st)
    return g, out


class IfFinite(M):
  def __init__(self, inner, limit):
    self.inner, self.limit = inner, limit
    self.needs_params = inner.needs_params

  def init(self, p):
    return {'run': 0, 'last': True, 'total': 0, 'inner': self.inner.init(p)}

  def update(self, g, s, p=None):
    finite = all(np.isfinite(x).all() for x in g)
    run = 0 if finite else s['run'] + 1
    if finite or run > self.limit:
      u, inner = self.inner.update(g, s['inner'], p)
    else:
      u, inner = zl(g), s['inner']
    return u, {'run': run, 'last': finite, 'total': s['total'] + (not finite),
               'inner': inner}


class MultiSteps(M):
  def __init__(self, inner, k, mean=True):
    self.inner, self.k, self.mean = inner, k, mean
    self.needs_params = inner.needs_params

  def init(self, p):
    return {'mini': 0, 'big': 0, 'acc': zl(p), 'inner': self.inner.init(p)}

  def update(self, g, s, p=None):
    k = self.k(s['big']) if callable(self.k) else self.k
    acc = ew(np.add, s['acc'], g)
    if s['mini'] < k - 1:
      return zl(g), {'mini': s['mini'] + 1, 'big': s['big'], 'acc': acc,
                     'inner': s['inner']}
    use = ew(lambda x: x / k, acc) if self.mean else acc
    u, inner = self.inner.update(use, s['inner'], p)
    return u, {'mini': 0, 'big': s['big'] + 1, 'acc': zl(g), 'inner': inner}


class Masked(M):
  """`mask` has one boolean per leaf, or is a predicate on leaves."""

  def __init__(self, inner, mask):
    self.inner, self.mask = inner, mask
    self.needs_params = inner.needs_params

  def _sel(self, xs):
    return None if xs is None else [x for x, m in zip(xs, self._mask(xs)) if m]

  def _mask(self, xs):
    return [self.mask(x) for x in xs] if callable(self.mask) else self.mask

  def init(self, p):
    return {'inner': self.inner.init(self._sel(p))}

  def update(self, g, s, p=None):
    u, inner = self.inner.update(self._sel(g), s['inner'], self._sel(p))
    it = iter(u)
    return [next(it) if m else x for x, m in zip(g, self._mask(g))], {'inner': inner}


class Flatten(M):
  def __init__(self, inner):
    self.inner = inner
    self.needs_params = inner.needs_params

  def _flat(self, xs):
    return None if xs is None else [np.concatenate([np.ravel(x) for x in xs])]

  def init(self, p):
    return {'inner': self.inner.init(self._flat(p))}

  def update(self, g, s, p=None):
    u, inner = self.inner.update(self._flat(g), s['inner'], self._flat(p))
    out, i = [], 0
    for x in g:
      out.append(u[0][i:i + x.size].reshape(x.shape))
      i += x.size
    return out, {'inner': inner}


class Maybe(M):
  def __init__(self, inner, pred):
    self.inner, self.pred = inner, pred
    self.needs_params = inner.needs_params

  def init(self, p):
    return {'step': 0, 'inner': self.inner.init(p)}

  def update(self, g, s, p=None):
    if self.pred(s['step']):
      g, inner = self.inner.update(g, s['inner'], p)
    else:
      inner = s['inner']
    return g, {'step': s['step'] + 1, 'inner': inner}


class Inject(M):
  """`make(**hyperparams)` builds the inner model; some are schedules."""

  def __init__(self, make, consts, scheds):
    self.make, self.consts, self.scheds = make, dict(consts), dict(scheds)
    self.needs_params = make(**consts, **{k: f(0) for k, f in scheds.items()}).needs_params

  def _values(self, consts, n):
    return {**consts, **{k: f(n) for k, f in self.scheds.items()}}

  def init(self, p):
    hp = self._values(self.consts, 0)
    return {'count': 0, 'hp': hp, 'inner': self.make(**hp).init(p)}

  def update(self, g, s, p=None):
    n = inc(s['count'])
    hp = self._values({k: s['hp'][k] for k in self.consts}, n)
    u, inner = self.make(**hp).update(g, s['inner'], p)
    return u, {'count': n, 'hp': hp, 'inner': inner}


class Lookahead(M):
  """Parameters and updates are the fast leaves followed by the slow leaves."""
  needs_params = True

  def __init__(self, inner, period, step, reset=False):
    self.inner, self.k, self.a, self.reset = inner, period, step, reset

  def split(self, p):
    n = len(p) // 2
    return p[:n], p[n:]

  def init(self, p):
    return {'i': 0, 'inner': self.inner.init(self.split(p)[0])}

  def update(self, g, s, p=None):
    fast, slow = self.split(p)
    u, inner = self.inner.update(g, s['inner'], fast)
    if s['i'] != self.k - 1:
      return list(u) + zl(slow), {'i': s['i'] + 1, 'inner': inner}
    diff = ew(lambda f, x, w: f + x - w, fast, u, slow)
    us = ew(lambda d: self.a * d, diff)
    # The fast weights end where the slow weights end.
    uf = ew(lambda x, w, f: w + x - f, us, slow, fast)
    return list(uf) + list(us), {
        'i': 0, 'inner': self.inner.init(fast) if self.reset else inner}


def neg(fn):
  return lambda n: -fn(n)


def lr(x):
  return BySchedule(neg(x)) if callable(x) else Scale(-x)


# Optimiser aliases, from their documentation.
def sgd(learning_rate, momentum=None, nesterov=False):
  return Chain(*([Trace(momentum, nesterov)] if momentum is not None else []),
               lr(learning_rate))


def adam(learning_rate, b1=0.9, b2=0.999, eps=1e-8, eps_root=0.0):
  return Chain(Adam(b1, b2, eps, eps_root), lr(learning_rate))


def adamw(learning_rate, b1=0.9, b2=0.999, eps=1e-8, eps_root=0.0, weight_decay=1e-4):
  return Chain(Adam(b1, b2, eps, eps_root), Decay(weight_decay), lr(learning_rate))


def adabelief(learning_rate, b1=0.9, b2=0.999, eps=1e-8):
  return Chain(Belief(b1, b2, eps), lr(learning_rate))


def adagrad(learning_rate, initial_accumulator_value=0.1, eps=1e-7):
  return Chain(Rss(initial_accumulator_value, eps), lr(learning_rate))


def lamb(learning_rate, b1=0.9, b2=0.999, eps=1e-6, eps_root=0.0, weight_decay=0.):
  return Chain(Adam(b1, b2, eps, eps_root), Decay(weight_decay), TrustRatio(),
               lr(learning_rate))


def fromage(learning_rate, min_norm=1e-6):
  k = 1 / math.sqrt(1 + learning_rate**2)
  return Chain(TrustRatio(min_norm), Scale(-learning_rate * k), Decay(k - 1))


def radam(learning_rate, b1=0.9, b2=0.999, eps=1e-8, eps_root=0.0, threshold=5.0):
  return Chain(Radam(b1, b2, eps, eps_root, threshold), lr(learning_rate))


def rmsprop(learning_rate, decay=0.9, eps=1e-8, initial_scale=0., centered=False,
            momentum=None, nesterov=False):
  first = (Stddev if centered else Rms)(decay, eps, initial_scale)
  return Chain(first, lr(learning_rate),
               *([Trace(momentum, nesterov)] if momentum is not None else []))


def sm3(learning_rate, momentum=0.9):
  return Chain(SM3(momentum if momentum is not None else 0.), Scale(-learning_rate))


def yogi(learning_rate, b1=0.9, b2=0.999, eps=1e-3):
  return Chain(Yogi(b1, b2, eps), lr(learning_rate))


def yogi_listed(learning_rate, b1=0.9, b2=0.999, eps=1e-3):
  return Chain(YogiListed(b1, b2, eps), lr(learning_rate))


def set_counts(state, n):
  """Sets every 32-bit step counter of a model state."""
  if isinstance(state, dict):
    return {k: (n if k == 'count' else set_counts(v, n)) for k, v in state.items()}
  if isinstance(state, list):
    return [set_counts(v, n) for v in state]
  return state


class Real(M):
  """The real transformation as the inner law of a wrapper model.

  Leaves are passed as a list, so tree structure plays no role; compiled once.
  """

  def __init__(self, tx, needs_params=False, dtype=None, mode='jit'):
    import jax
    self.tx, self.needs_params, self.dtype = tx, needs_params, dtype
    self.step = jax.jit(tx.update) if mode == 'jit' else tx.update

  def _b(self, xs):
    import jax.numpy as jnp
    return None if xs is None else [jnp.asarray(x, self.dtype) for x in xs]

  def init(self, p):
    return {'real': self.tx.init(self._b(p))}

  def update(self, g, s, p=None):
    u, st = self.step(self._b(g), s['real'], self._b(p))
    return [np.asarray(x).astype(np.float64) for x in u], {'real': st}
