"""C34: control variates are subtracted with exactly their expected effect."""
import itertools
import math

import jax
import jax.numpy as jnp
import numpy as np
import optax
from optax._src import control_variates as cvs
from optax._src import utils

from checks.c33 import MEANS, STDS, same, weighted

ASSUMPTIONS = ['functions, variates and parameters outside the families behave like those in them']


def eye3(d):
  """delta_ijk as an array."""
  t = np.zeros((d, d, d))
  for i in range(d):
    t[i, i, i] = 1
  return t


# name -> (function, value, gradient, Hessian, third derivatives) at one point (numpy).
def _linear(a):
  return (lambda x: jnp.dot(jnp.asarray(a[:x.shape[-1]]), x) - 0.7, lambda x: a[:x.size] @ x - 0.7, lambda x: a[:x.size] + 0,
          lambda x: np.zeros((x.size,) * 2), lambda x: np.zeros((x.size,) * 3))


A3 = np.array([1.3, -0.4, 0.8])
Q3 = np.array([[1., 0.5, -0.3], [0.5, -2., 0.9], [-0.3, 0.9, 0.4]])


def _prod_t(x):
  d = x.size
  t = np.zeros((d, d, d))
  for i, j, k in itertools.permutations(range(d), 3):
    t[i, j, k] = np.prod([x[q] for q in range(d) if q not in (i, j, k)])
  return t


def _prod_h(x):
  d = x.size
  h = np.zeros((d, d))
  for i, j in itertools.permutations(range(d), 2):
    h[i, j] = np.prod([x[q] for q in range(d) if q not in (i, j)])
  return h


FUNS = {
    'linear': _linear(A3),
    'quadratic': (lambda x: 0.5 * x @ jnp.asarray(Q3[:x.shape[-1], :x.shape[-1]]) @ x + jnp.sum(x), lambda x: 0.5 * x @ Q3[:x.size, :x.size] @ x + x.sum(),
                  lambda x: Q3[:x.size, :x.size] @ x + 1, lambda x: Q3[:x.size, :x.size], lambda x: np.zeros((x.size,) * 3)),
    'cubes': (lambda x: jnp.sum(x**3), lambda x: (x**3).sum(), lambda x: 3 * x**2, lambda x: np.diag(6 * x), lambda x: 6 * eye3(x.size)),
    'cosines': (lambda x: jnp.sum(jnp.cos(0.8 * x)), lambda x: np.cos(0.8 * x).sum(), lambda x: -0.8 * np.sin(0.8 * x),
                lambda x: np.diag(-0.64 * np.cos(0.8 * x)), lambda x: eye3(x.size) * (0.512 * np.sin(0.8 * x))[:, None, None]),
    'product': (lambda x: jnp.prod(x + 0.3), lambda x: np.prod(x + 0.3),
                lambda x: np.array([np.prod(np.delete(x + 0.3, i)) for i in range(x.size)]), lambda x: _prod_h(x + 0.3), lambda x: _prod_t(x + 0.3)),
}


class Delta:
  """The second-order expansion at the mean."""
  make = staticmethod(optax.control_delta_method)
  state = None

  def __init__(self, fun):
    _, self.f, self.g, self.h, self.t = FUNS[fun]

  def value(self, m, ls, x, st):
    c = x - m
    return self.f(m) + self.g(m) @ c + 0.5 * c @ self.h(m) @ c

  def dx(self, m, ls, x, st):
    return self.g(m) + self.h(m) @ (x - m)

  def dparams(self, m, ls, x, st):
    c = x - m
    return 0.5 * np.einsum('i,kij,j->k', c, self.t(m), c), 0 * m

  def dexp(self, m, ls, st):
    v = np.exp(2 * ls)
    return self.g(m) + 0.5 * np.einsum('i,kii->k', v, self.t(m)), v * np.diag(self.h(m))

  def exp(self, m, ls, st):
    return self.f(m) + 0.5 * (np.exp(2 * ls) * np.diag(self.h(m))).sum()

  def update(self, st, xs):
    return st


class Baseline:
  """The moving average (default options unless given)."""

  def __init__(self, fun, decay=0.99, debias=True, early=True, state=(0., 0)):
    self.fn = FUNS[fun][1]
    self.opts = (decay, debias, early)
    self.make = lambda f: optax.moving_avg_baseline(f, decay, debias, early)
    self.state = state

  def value(self, m, ls, x, st):
    return st[0]

  def dx(self, m, ls, x, st):
    return 0 * m

  def dparams(self, m, ls, x, st):
    return 0 * m, 0 * m

  def dexp(self, m, ls, st):
    return 0 * m, 0 * m

  def exp(self, m, ls, st):
    return st[0]

  def update(self, st, xs):
    return average(st, np.mean([self.fn(x) for x in xs]), *self.opts)


class Custom:
  """A variate that depends on samples, parameters and state: s * (a'x + 0.3 m'm + sum(x * exp(logstd)))."""

  def __init__(self, fun):
    self.state = 0.8

    def make(f):
      del f
      def value(params, x, st):
        a = jnp.asarray(A3[:x.shape[-1]])
        return st * (jnp.dot(a, x) + 0.3 * jnp.sum(params[0]**2) + jnp.sum(x * jnp.exp(params[1])))

      def expected(params, st):
        a = jnp.asarray(A3[:params[0].shape[-1]])
        return st * (jnp.dot(a, params[0]) + 0.3 * jnp.sum(params[0]**2) + jnp.sum(params[0] * jnp.exp(params[1])))

      def update(params, xs, st):
        return st + 0.1 * jnp.mean(xs) + 0.01 * params[0][0]
      return value, expected, update
    self.make = make

  def value(self, m, ls, x, st):
    return st * (A3[:x.size] @ x + 0.3 * (m**2).sum() + (x * np.exp(ls)).sum())

  def dx(self, m, ls, x, st):
    return st * (A3[:x.size] + np.exp(ls))

  def dparams(self, m, ls, x, st):
    return st * 0.6 * m, st * x * np.exp(ls)

  def dexp(self, m, ls, st):
    return st * (A3[:m.size] + 0.6 * m + np.exp(ls)), st * m * np.exp(ls)

  def exp(self, m, ls, st):
    return st * (A3[:m.size] @ m + 0.3 * (m**2).sum() + (m * np.exp(ls)).sum())

  def update(self, st, xs, m=None):
    return st + 0.1 * np.mean(xs) + 0.01 * m[0]


VARIATES = {
    'delta': Delta, 'baseline': Baseline, 'custom': Custom,
    'baseline-late': lambda f: Baseline(f, state=(1.7, 400)),
    'baseline-raw': lambda f: Baseline(f, 0.9, False, False, (0.4, 3)),
}


def average(st, mean, decay, debias, early):
  """One update of the documented moving average (value reported debiased)."""
  v, i = st
  rate = lambda j: min(decay, (1. + j) / (10. + j)) if early else decay
  prod = lambda n: float(np.prod([rate(j) for j in range(n)])) if early else decay**n
  if debias:
    v = v * (1 - prod(i))
  v = rate(i) * v + (1 - rate(i)) * mean
  if debias:
    v = v / (1 - prod(i + 1))
  return v, i + 1


def closed_rows(which, h, dh, xs, m, ls):
  """Rows of the score-function or pathwise estimator in closed form."""
  s = np.exp(ls)
  d = (xs - m) / s
  if which == 'score':
    v = np.array([h(x) for x in xs])[:, None]
    return [v * d / s, v * (d**2 - 1)]
  g = np.array([dh(x) for x in xs])
  return [g, g * (xs - m)]


ESTS = {'score': optax.score_function_jacobians, 'pathwise': optax.pathwise_jacobians, 'measure': optax.measure_valued_jacobians,
        'uncoupled': lambda *a: optax.measure_valued_jacobians(*a, coupling=False)}


def coefficients(jf, jh, eps=1e-3):
  out = []
  for f, h in zip(jf, jh):
    cov = ((f - f.mean(0)) * (h - h.mean(0))).mean(0)
    out.append(cov.sum() / (h.var(0).sum() + eps))
  return out


def step_state(v, st, xs, m):
  return v.update(st, xs, m) if isinstance(v, Custom) else v.update(st, xs)


def jac_rows(ctx, which, v, fun, xs, m, ls, st, key, n, real_dist):
  """(rows of the function, rows of the variate) for one set of samples."""
  f, fv, fg = FUNS[fun][:3]
  if which in ('score', 'pathwise'):
    return (closed_rows(which, fv, fg, xs, m, ls),
            closed_rows(which, lambda x: v.value(m, ls, x, st), lambda x: v.dx(m, ls, x, st), xs, m, ls))
  # Measure-valued rows come from the estimator itself (decided by C33).
  val = v.make(f)[0]
  p = (jnp.asarray(m), jnp.asarray(ls))
  jst = jax.tree_util.tree_map(jnp.asarray, st)
  return ([np.asarray(j, np.float64) for j in ESTS[which](f, p, real_dist, key, n)],
          [np.asarray(j, np.float64) for j in ESTS[which](lambda x: val(p, x, jst), p, real_dist, key, n)])


def decomposition(ctx, which, variate, funs, dim, n, seeds, coeffs, n2=20, mode='jit', calls=2, stride=1):
  """Every function and parameter: the documented combination, over several calls that pass the state on."""
  wrap = jax.jit if mode == 'jit' else (lambda f: f)
  for fun in funs:
    v = VARIATES[variate](fun)
    run = wrap(lambda m, ls, k, st, v=v, fun=fun: optax.control_variates_jacobians(
        FUNS[fun][0], v.make, ESTS[which], (m, ls), optax.multi_normal, k, n, st, estimate_cv_coeffs=coeffs,
        **(dict(estimate_cv_coeffs_num_samples=n2) if n2 != 20 else {})))
    pairs = list(itertools.product(MEANS[dim], STDS[dim]))[::stride]
    for (m, ls), seed in itertools.product(pairs, seeds):
      first = (m, ls) == pairs[-1]
      m, ls = np.array(m), np.array(ls)
      st = v.state
      jst = jax.tree_util.tree_map(jnp.asarray, st)
      for call in range(calls):
        key = jax.random.PRNGKey(seed + 10 * call)
        dist = optax.multi_normal(jnp.asarray(m), jnp.asarray(ls))
        xs = np.asarray(dist.sample((n,), seed=key), np.float64)
        jac, jst = run(jnp.asarray(m), jnp.asarray(ls), key, jst)
        c = [1., 1.]
        if coeffs:
          k2 = jax.random.split(key)[0]
          x2 = np.asarray(dist.sample((n2,), seed=k2), np.float64)
          c = coefficients(*jac_rows(ctx, which, v, fun, x2, m, ls, st, k2, n2, optax.multi_normal))
          direct = c if not first or call else cvs.estimate_control_variate_coefficients(
              FUNS[fun][0], v.make, ESTS[which], (jnp.asarray(m), jnp.asarray(ls)), optax.multi_normal, key, n2, jax.tree_util.tree_map(jnp.asarray, st))
          same(ctx, '%s/%s/%s coefficients' % (which, variate, fun), np.array([float(x) for x in direct]), c, 1e-6)
        st = step_state(v, st, xs, m)
        jf, jh = jac_rows(ctx, which, v, fun, xs, m, ls, st, key, n, optax.multi_normal)
        dp = [np.mean(d, 0) for d in zip(*[v.dparams(m, ls, x, st) for x in xs])]
        de = v.dexp(m, ls, st)
        if len(jac) != 2 or any(np.shape(j) != (n, dim) for j in jac):
          ctx.fail('Jacobian shapes %s' % ([np.shape(j) for j in jac],))
        for i, what in enumerate(('mean', 'log scale')):
          e = jf[i] - c[i] * (jh[i] + dp[i] - de[i])
          same(ctx, '%s/%s/%s call %d: %s' % (which, variate, fun, call + 1, what), jac[i], e, 1e-6)
        if st is not None:
          same(ctx, '%s/%s/%s state after call %d' % (which, variate, fun, call + 1), np.array([float(x) for x in jax.tree_util.tree_leaves(jst)]),
               np.array([float(x) for x in jax.tree_util.tree_leaves(st)]), 1e-8)
        elif jst is not None:
          ctx.fail('a stateless variate obtained a state')
        ctx.states += 1
      ctx.traces += 1
  ctx.sample({'estimator': which, 'variate': variate, 'functions': list(funs), 'samples': n})


# Six equally weighted nodes that integrate polynomials up to degree 5 exactly.
NODES = np.array([-math.sqrt(3), 0, 0, 0, 0, math.sqrt(3)])


def unbiased(ctx, which, variate, dim, coeffs, mode):
  """The mean over all equally likely nodes is the exact gradient of the expectation."""
  wrap = jax.jit if mode == 'jit' else (lambda f: f)
  z = np.array(list(itertools.product(NODES, repeat=dim)))
  jz = jnp.asarray(z)
  seeds = []

  class Nodes(type(utils.multi_normal(jnp.zeros(dim), jnp.zeros(dim)))):

    def sample(self, shape, seed=None):
      seeds.append(seed)
      assert tuple(shape) == (len(z),), shape
      return self.params[0] + jnp.exp(self.params[1]) * jz
  for fun in ('linear', 'quadratic', 'cubes', 'product'):
    f, fv, fg, fh, ft = FUNS[fun]
    v = VARIATES[variate](fun)
    run = wrap(lambda m, ls, st, f=f, v=v: optax.control_variates_jacobians(
        f, v.make, ESTS[which], (m, ls), lambda a, b: Nodes(a, b), jax.random.PRNGKey(4), len(z), st,
        estimate_cv_coeffs=coeffs, estimate_cv_coeffs_num_samples=len(z)))
    for m, ls in itertools.product(MEANS[dim], STDS[dim]):
      m, ls = np.array(m), np.array(ls)
      s2 = np.exp(2 * ls)
      del seeds[:]
      jac, _ = run(jnp.asarray(m), jnp.asarray(ls), jax.tree_util.tree_map(jnp.asarray, v.state))
      # Exact for third-degree polynomials.
      em = fg(m) + 0.5 * np.einsum('i,kii->k', s2, ft(m))
      es = s2 * np.diag(fh(m))
      tol = 1e-6
      same(ctx, '%s/%s/%s mean' % (which, variate, fun), np.asarray(jac[0]).mean(0), em, tol)
      same(ctx, '%s/%s/%s log scale' % (which, variate, fun), np.asarray(jac[1]).mean(0), es, tol)
      if coeffs and mode == 'eager':
        distinct = {np.asarray(k).tobytes() for k in seeds}
        if len(distinct) != 2:
          ctx.fail('coefficients and Jacobians are estimated from %d different sets of samples instead of 2' % len(distinct))
      ctx.states += len(z)
      ctx.traces += 1


def variance(ctx, dim, stride):
  """The exact variate removes all variance of the pathwise and score estimators of a quadratic's mean."""
  for fun in ('linear', 'quadratic'):
    for which in ('score', 'pathwise', 'measure'):
      for m, ls in list(itertools.product(MEANS[dim], STDS[dim]))[1::stride]:
        p = (jnp.asarray(m), jnp.asarray(ls))
        jac, _ = optax.control_variates_jacobians(FUNS[fun][0], optax.control_delta_method, ESTS[which], p, optax.multi_normal,
                                                  jax.random.PRNGKey(2), 9)
        m_, ls_ = np.array(m), np.array(ls)
        e = [FUNS[fun][2](m_), np.exp(2 * ls_) * np.diag(FUNS[fun][3](m_))]
        for j, x in zip(jac, e):
          same(ctx, 'exact variate %s/%s' % (which, fun), j, np.broadcast_to(x, (9, dim)), 1e-7)
        ctx.traces += 1
        ctx.states += 9


def parts(ctx, dim):
  """The three functions of the delta method on their own."""
  for fun in FUNS:
    v = Delta(fun)
    value, expected, update = optax.control_delta_method(FUNS[fun][0])
    for m, ls in itertools.product(MEANS[dim], STDS[dim]):
      m, ls = np.array(m), np.array(ls)
      p = (jnp.asarray(m), jnp.asarray(ls))
      same(ctx, 'expected delta of %s' % fun, jax.jit(lambda a, b: expected((a, b), None))(*p), v.exp(m, ls, None))
      same(ctx, 'expected delta of %s (eager)' % fun, expected(p, None), v.exp(m, ls, None))
      for x in itertools.product((-1.4, 0., 2.1), repeat=dim):
        same(ctx, 'delta of %s' % fun, value(p, jnp.asarray(x), None), v.value(m, ls, np.array(x), None))
        ctx.states += 1
      for st in (None, 3., (1., 2)):
        if update(p, jnp.zeros((2, dim)), st) is not st:
          ctx.fail('the delta method changes the state')
    ctx.traces += 1


MEANSET = {'a': 1., 'b': -2., 'z': 0., 'L': 50., 's': 1e-3}


def averages(ctx, options, depth, letters, mode, start=(0., 0)):
  """All histories of batch means: the moving average after every update."""
  for decay, debias, early in options:
    fn = lambda x: jnp.sum(x) * 2
    value, expected, update = optax.moving_avg_baseline(fn, decay, debias, early)
    up = jax.jit(update) if mode == 'jit' else update
    p = (jnp.zeros(2), jnp.zeros(2))
    # Batches of different sizes with the given mean of `fn`.
    batches = {}
    for k, c in enumerate(letters):
      x = np.zeros((k % 3 + 1, 2))
      x[:, 0] = MEANSET[c] / 2 + np.arange(len(x)) - (len(x) - 1) / 2
      batches[c] = jnp.asarray(x)
    stack = [((), (jnp.asarray(start[0]), jnp.asarray(start[1])), start)]
    while stack:
      h, st, e = stack.pop()
      for c in letters:
        s1 = up(p, batches[c], st)
        e1 = average(e, MEANSET[c], decay, debias, early)
        ctx.transitions += 1
        if int(s1[1]) != e1[1]:
          ctx.fail('%d updates are counted as %d' % (e1[1], int(s1[1])))
        if abs(float(s1[0]) - e1[0]) > 1e-9 * max(1., abs(e1[0])):
          ctx.fail('decay %s, debias %s, early %s: the average of %s is %r, expected %r' % (
              decay, debias, early, h + (c,), float(s1[0]), e1[0]), history=h + (c,))
        for f in (value(p, jnp.ones(2), s1), expected(p, s1)):
          if float(f) != float(s1[0]):
            ctx.fail('the variate is not the average')
        ctx.outcomes.add(float(np.round(e1[0], 6)))
        if len(h) + 1 < depth:
          ctx.states += 1
          stack.append((h + (c,), s1, e1))
        else:
          ctx.traces += 1
  ctx.sample({'options': [list(o) for o in options], 'depth': depth})


def long_average(ctx, options, steps, letters='abzLs', rtol=1e-9):
  for decay, debias, early in options:
    _, _, update = optax.moving_avg_baseline(lambda x: jnp.sum(x), decay, debias, early)
    up = jax.jit(update)
    st, m, k = (jnp.asarray(0.), jnp.asarray(0)), 0., 0
    prod = 1.
    for i in range(steps):
      c = MEANSET[letters[i % len(letters)]]
      r = min(decay, (1. + i) / (10. + i)) if early else decay
      m, prod = r * m + (1 - r) * c, prod * r
      e = m / (1 - prod) if debias else m
      st = up(None, jnp.asarray([[c, 0.], [0., c]]), st)
      ctx.transitions += 1
      if abs(float(st[0]) - e) > rtol * 50 or int(st[1]) != i + 1:
        ctx.fail('decay %s, debias %s, early %s: after %d updates %r, expected %r' % (decay, debias, early, i + 1, float(st[0]), e))
    # A constant history is reproduced exactly by a debiased average.
    if debias:
      st = (jnp.asarray(0.), jnp.asarray(0))
      for i in range(40):
        st = up(None, jnp.asarray([[2.5, 0.]]), st)
        if abs(float(st[0]) - 2.5) > max(rtol, 1e-9) * 10:
          ctx.fail('the debiased average of a constant 2.5 is %r after %d updates' % (float(st[0]), i + 1))
    ctx.states += steps
    ctx.traces += 1


def UNITS(tier):
  T = tier == 'thorough'
  u = []
  F = tuple(FUNS)
  for which in ESTS:
    for var in VARIATES:
      for coeffs in (False, True):
        for dim in (1, 2, 3) if T else ((2, 3) if which == 'score' else (2,)):
          if not T and which == 'uncoupled' and var != 'delta':
            continue
          fs = F if T or var in ('delta', 'baseline') else F[1:3]
          if which in ('measure', 'uncoupled') and not T:
            fs = fs[1:3]
          if dim == 3 and not T:
            fs = fs[1:3]
          u.append(('law-%s-%s-%s-%d' % (which, var, coeffs, dim), decomposition,
                    dict(which=which, variate=var, funs=fs, dim=dim, n=7, seeds=(0, 3) if T else (0,), coeffs=coeffs,
                         stride=3 if not T and which in ('measure', 'uncoupled') else 1)))
  u.append(('law-one-sample', decomposition, dict(which='score', variate='delta', funs=F[:3], dim=1, n=1, seeds=(0, 1, 2), coeffs=False)))
  u.append(('law-n2', decomposition, dict(which='score', variate='baseline-late', funs=F[1:3], dim=2, n=5, seeds=(1,), coeffs=True, n2=33)))
  u.append(('law-many', decomposition, dict(which='pathwise', variate='delta', funs=F[2:4], dim=2, n=50, seeds=(1,), coeffs=True, n2=9)))
  u.append(('law-eager', decomposition, dict(which='score', variate='baseline', funs=F[2:3], dim=2, n=4, seeds=(5,), coeffs=True, mode='eager')))
  for which in ('score', 'pathwise'):
    for var in ('delta', 'baseline', 'custom', 'baseline-late'):
      for coeffs in (False, True):
        for dim in (1, 2) + ((3,) if T else ()):
          u.append(('unbiased-%s-%s-%s-%d' % (which, var, coeffs, dim), unbiased,
                    dict(which=which, variate=var, dim=dim, coeffs=coeffs, mode='jit' if dim > 1 or not coeffs else 'eager')))
  for dim in (1, 2, 3):
    u.append(('variance-%d' % dim, variance, dict(dim=dim, stride=1 if T else 3)))
    u.append(('parts-%d' % dim, parts, dict(dim=dim)))
  opts = list(itertools.product((0., 0.3, 0.5, 0.9, 0.99, 0.999), (False, True), (False, True)))
  for i in range(6):
    u.append(('avg-%d' % i, averages, dict(options=opts[i::6], depth=6 if T else 4, letters='abzLs', mode='jit')))
    u.append(('avg-later-%d' % i, averages, dict(options=opts[i::6], depth=2, letters='abL', mode='jit', start=(1.25, (1, 5, 8, 90, 300, 2000)[i]))))
    u.append(('long-%d' % i, long_average, dict(options=opts[i::6], steps=2000 if T else 300)))
  u.append(('avg-eager', averages, dict(options=opts[5::4], depth=2, letters='ab', mode='eager')))
  u.append(('long32', long_average, dict(options=opts[1::3], steps=300, rtol=1e-5, x64=False)))
  return u
