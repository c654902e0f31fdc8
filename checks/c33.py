"""C33: gradient estimators are unbiased for the gradient of the expectation."""
import itertools
import math

import jax
import jax.numpy as jnp
import numpy as np
import optax
from optax._src import utils

from mc import noise

ASSUMPTIONS = [
    'functions and parameters outside the families behave like those in them',
    'the distribution of the samples is judged on the complete set of draws of fixed keys, with margins of 6 standard errors',
]


def same(ctx, what, got, exp, rtol=1e-9):
  got, exp = np.asarray(got, np.float64), np.asarray(exp, np.float64)
  ctx.transitions += max(1, exp.size)
  if got.shape != exp.shape:
    ctx.fail('%s: shape %s, expected %s' % (what, got.shape, exp.shape))
  scale = max(1., np.abs(exp).max(initial=0.))
  bad = ~(np.abs(got - exp) <= rtol * scale)
  if bad.any():
    i = int(np.argmax(bad))
    ctx.fail('%s: entry %d is %r, expected %r' % (what, i, float(got.reshape(-1)[i]), float(exp.reshape(-1)[i])))
  ctx.outcomes.add((what[:24], float(np.round(exp.reshape(-1)[-1], 5))) if exp.size else what[:24])


# ---------------------------------------------------------------- finite distributions


class Outcomes:
  """A finite distribution whose `sample` returns every outcome once."""

  def __init__(self, values, log_probs, index):
    self.values, self.log_probs, self.index = values, log_probs, index

  def sample(self, shape, seed=None):
    assert tuple(shape) == (len(self.values),), shape
    return self.values

  def log_prob(self, x):
    return self.log_probs[self.index(x)]


def categorical(*params):
  logits = params[0]
  return Outcomes(jnp.arange(logits.shape[0]), jax.nn.log_softmax(logits), lambda x: x)


def two_part(bias, w, temp):
  logits = (bias + w.sum(0)) * temp
  return Outcomes(jnp.arange(bias.shape[0]), jax.nn.log_softmax(logits), lambda x: x)


def bernoullis(theta):
  n = theta.shape[0]
  bits = jnp.asarray(list(itertools.product((0., 1.), repeat=n)))
  lp = (bits * jax.nn.log_sigmoid(theta) + (1 - bits) * jax.nn.log_sigmoid(-theta)).sum(-1)
  return Outcomes(bits, lp, lambda x: jnp.dot(x, 2.**jnp.arange(n)[::-1]).astype(int))


def moving(theta):
  """Outcomes that move with the parameters; the estimator must not follow them."""
  lp = jax.nn.log_softmax(jnp.stack([theta[0], theta[1] * 2, -theta[0]]))
  v = jnp.stack([theta[0], theta[1]**2, theta[0] * theta[1]])
  tags = jnp.stack([jax.lax.stop_gradient(v), v], -1)
  d = Outcomes(tags, lp, None)
  d.log_prob = lambda x: jnp.sum(jnp.where(x[0] == jax.lax.stop_gradient(v), lp, 0.))
  return d


def softmax(x):
  e = np.exp(x - x.max())
  return e / e.sum()


def weighted(jacs, p):
  return [np.tensordot(p, np.asarray(j, np.float64), axes=1) for j in jacs]


TABLES = [lambda i: i * 1., lambda i: (i - 1.)**2, lambda i: (-1.)**i * (i + 2), lambda i: 3., lambda i: float(i == 2) * 7]


def table_fn(f, n):
  tab = jnp.asarray([f(i) for i in range(n)], float)
  return lambda x: tab[x]


def score_categorical(ctx, n, mode):
  """Every table of values, every logit vector of an alphabet."""
  wrap = jax.jit if mode == 'jit' else (lambda f: f)
  alphabet = (-2., 0., 0.7) if n < 5 else (-1., 0.5)
  thetas = list(itertools.product(alphabet, repeat=n))
  for f in TABLES:
    est = wrap(lambda th, f=f: optax.score_function_jacobians(table_fn(f, n), (th,), categorical, jax.random.PRNGKey(0), n))
    fv = np.array([f(i) for i in range(n)])
    for th in thetas:
      th = np.array(th)
      jac = est(jnp.asarray(th))
      if len(jac) != 1 or np.shape(jac[0]) != (n, n):
        ctx.fail('Jacobians of shape %s instead of one row per sample' % (np.shape(jac[0]),))
      p = softmax(th)
      exact = p * (fv - p @ fv)
      same(ctx, 'categorical %s' % (th,), weighted(jac, p)[0], exact)
      rows = fv[:, None] * (np.eye(n) - p)
      same(ctx, 'categorical %s rows' % (th,), jac[0], rows)
      ctx.states += 1
      ctx.traces += 1
  ctx.sample({'categories': n, 'logit vectors': len(thetas), 'functions': len(TABLES)})


def score_shapes(ctx, mode):
  """Parameters of several ranks; the gradient by the chain rule."""
  wrap = jax.jit if mode == 'jit' else (lambda f: f)
  n = 3
  for f in TABLES:
    fv = np.array([f(i) for i in range(n)])
    est = wrap(lambda b, w, t, f=f: optax.score_function_jacobians(table_fn(f, n), (b, w, t), two_part, jax.random.PRNGKey(3), n))
    for b, w, t in itertools.product(([0., 0., 0.], [1., -0.5, 0.3]), ([[0.2, -1., 0.4], [0.3, 0.3, -0.3]], [[0.] * 3] * 2), (1., -0.7)):
      b, w = np.array(b), np.array(w)
      jac = est(jnp.asarray(b), jnp.asarray(w), jnp.asarray(t))
      p = softmax((b + w.sum(0)) * t)
      gl = p * (fv - p @ fv)
      if [np.shape(j) for j in jac] != [(n, 3), (n, 2, 3), (n,)]:
        ctx.fail('Jacobian shapes %s' % ([np.shape(j) for j in jac],))
      got = weighted(jac, p)
      same(ctx, 'bias', got[0], gl * t)
      same(ctx, 'weights', got[1], np.stack([gl * t] * 2))
      same(ctx, 'temperature', got[2], gl @ (b + w.sum(0)))
      ctx.states += 1
      ctx.traces += 1


BITFN = [(lambda x: jnp.sum(x), lambda x: x.sum()), (lambda x: jnp.prod(x + 0.5), lambda x: np.prod(x + 0.5)),
         (lambda x: jnp.where(x[0] > 0.5, 4., jnp.sum(x)**2), lambda x: 4. if x[0] > 0.5 else x.sum()**2)]


def score_bits(ctx, n, mode):
  wrap = jax.jit if mode == 'jit' else (lambda f: f)
  bits = np.array(list(itertools.product((0., 1.), repeat=n)))
  for f, fn in BITFN:
    est = wrap(lambda th, f=f: optax.score_function_jacobians(f, (th,), bernoullis, jax.random.PRNGKey(0), 2**n))
    for th in itertools.product((-1., 0., 2.), repeat=n):
      th = np.array(th)
      q = 1 / (1 + np.exp(-th))
      p = np.prod(np.where(bits > 0, q, 1 - q), -1)
      fv = np.array([fn(b) for b in bits])
      # d/dtheta_i E f = q_i (1-q_i) (E[f | 1] - E[f | 0])
      exact = []
      for i in range(n):
        on = bits[:, i] > 0
        exact.append((p[on] @ fv[on] / q[i] - p[~on] @ fv[~on] / (1 - q[i])) * q[i] * (1 - q[i]))
      same(ctx, 'bernoullis %s' % (th,), weighted(est(jnp.asarray(th)), p)[0], exact)
      ctx.states += 1
      ctx.traces += 1


def score_moving(ctx, mode):
  """Samples that depend on the parameters are constants for the score function."""
  wrap = jax.jit if mode == 'jit' else (lambda f: f)
  for k, f in enumerate((lambda x: x[1] * 3, lambda x: x[1]**2, lambda x: jnp.sin(x[1]))):
    est = wrap(lambda th, f=f: optax.score_function_jacobians(f, (th,), moving, jax.random.PRNGKey(0), 3))
    for a, b in itertools.product((0.3, -1.1, 1.7), (0.4, -0.9)):
      v = np.array([a, b * b, a * b])
      fv = [v * 3, v**2, np.sin(v)][k]
      lg = np.array([a, 2 * b, -a])
      p = softmax(lg)
      gl = p * (fv - p @ fv)
      exact = [gl[0] - gl[2], 2 * gl[1]]
      same(ctx, 'moving outcomes', weighted(est(jnp.asarray([a, b])), p)[0], exact)
      ctx.states += 1
      ctx.traces += 1


# ---------------------------------------------------------------- Gaussian expectations

# name -> (function, value, gradient, d/dmean E, d/dlogstd E) for samples x of any dimension.
GAUSS = {
    'sum': (lambda x: jnp.sum(x), lambda x: x.sum(-1), lambda x: np.ones_like(x), lambda m, s: np.ones_like(m), lambda m, s: 0 * m),
    'squares': (lambda x: jnp.sum(x**2), lambda x: (x**2).sum(-1), lambda x: 2 * x, lambda m, s: 2 * m, lambda m, s: 2 * s**2),
    'square of sum': (lambda x: jnp.sum(x)**2, lambda x: x.sum(-1)**2, lambda x: 2 * x.sum(-1, keepdims=True) + 0 * x,
                      lambda m, s: 2 * m.sum() + 0 * m, lambda m, s: 2 * s**2),
    'cubes': (lambda x: jnp.sum(x**3), lambda x: (x**3).sum(-1), lambda x: 3 * x**2, lambda m, s: 3 * (m**2 + s**2), lambda m, s: 6 * m * s**2),
    'quartic': (lambda x: jnp.sum(x**4), lambda x: (x**4).sum(-1), lambda x: 4 * x**3, lambda m, s: 4 * m**3 + 12 * m * s**2,
                lambda m, s: 12 * m**2 * s**2 + 12 * s**4),
    'constant': (lambda x: 2.5 + 0. * jnp.sum(x), lambda x: 2.5 + 0 * x.sum(-1), lambda x: 0 * x, lambda m, s: 0 * m, lambda m, s: 0 * m),
    'cosines': (lambda x: jnp.sum(jnp.cos(0.8 * x)), lambda x: np.cos(0.8 * x).sum(-1), lambda x: -0.8 * np.sin(0.8 * x),
                lambda m, s: -0.8 * np.sin(0.8 * m) * np.exp(-0.32 * s**2), lambda m, s: -0.64 * s**2 * np.cos(0.8 * m) * np.exp(-0.32 * s**2)),
    'product': (lambda x: jnp.prod(x), lambda x: np.prod(x, -1), lambda x: np.stack([np.prod(np.delete(x, i, -1), -1) for i in range(x.shape[-1])], -1),
                lambda m, s: np.array([np.prod(np.delete(m, i)) for i in range(m.size)]), lambda m, s: 0 * m),
    'mixed': (lambda x: x[0]**2 * x[-1] + jnp.sum(x), lambda x: x[..., 0]**2 * x[..., -1] + x.sum(-1), None, None, None),
}

MEANS = {1: ([0.], [1.3], [-0.6]), 2: ([0., 0.], [0.5, -1.2], [2., 0.3]), 3: ([0.1, -0.4, 0.9],)}
# Narrow and wide ones, where no quadrature is needed.
EXTREME = {1: ([-4.5], [3.]), 2: ([-4., 2.5],), 3: ([-3., 0., 2.],)}
STDS = {1: ([0.], [0.4], [-1.]), 2: ([0., 0.], [-0.7, 0.3]), 3: ([0.2, -0.5, 0.],)}


def nodes(dim, order):
  z, w = np.polynomial.hermite_e.hermegauss(order)
  w = w / w.sum()
  return np.array(list(itertools.product(z, repeat=dim))), np.array([np.prod(c) for c in itertools.product(w, repeat=dim)])


def quadrature(ctx, dim, order, which, mode):
  """Every node of a quadrature that is exact for the family, weighted by its probability."""
  wrap = jax.jit if mode == 'jit' else (lambda f: f)
  z, w = nodes(dim, order)
  jz = jnp.asarray(z)

  class Nodes(type(utils.multi_normal(jnp.zeros(dim), jnp.zeros(dim)))):

    def sample(self, shape, seed=None):
      assert tuple(shape) == (len(z),), shape
      return self.params[0] + jnp.exp(self.params[1]) * jz
  fn = {'score': optax.score_function_jacobians, 'pathwise': optax.pathwise_jacobians}[which]
  for name, (f, _, _, dm, ds) in GAUSS.items():
    if dm is None:
      continue
    est = wrap(lambda m, s, f=f: fn(f, (m, s), lambda a, b: Nodes(a, b), jax.random.PRNGKey(1), len(z)))
    for m, ls in itertools.product(MEANS[dim], STDS[dim]):
      m, ls = np.array(m), np.array(ls)
      jac = est(jnp.asarray(m), jnp.asarray(ls))
      if [np.shape(j) for j in jac] != [(len(z), dim)] * 2:
        ctx.fail('Jacobian shapes %s' % ([np.shape(j) for j in jac],))
      got = weighted(jac, w)
      tol = 1e-8 if name != 'cosines' else 1e-6
      same(ctx, '%s of %s: mean' % (which, name), got[0], dm(m, np.exp(ls)), tol)
      same(ctx, '%s of %s: log scale' % (which, name), got[1], ds(m, np.exp(ls)), tol)
      ctx.states += len(z)
      ctx.traces += 1
  ctx.sample({'estimator': which, 'dimension': dim, 'nodes': len(z)})


def rows(ctx, which, dim, n, seeds, mode):
  """Samples of the real Gaussian: row by row, from the key's own samples."""
  wrap = jax.jit if mode == 'jit' else (lambda f: f)
  fn = {'score': optax.score_function_jacobians, 'pathwise': optax.pathwise_jacobians}[which]
  for name, (f, fv, fg, _, _) in GAUSS.items():
    if fg is None:
      continue
    est = wrap(lambda m, s, k, f=f: fn(f, (m, s), optax.multi_normal, k, n))
    for seed in seeds:
      for m, ls in itertools.product(MEANS[dim], STDS[dim] + EXTREME[dim]):
        key = jax.random.PRNGKey(seed)
        m, ls = np.array(m), np.array(ls)
        x = np.asarray(optax.multi_normal(jnp.asarray(m), jnp.asarray(ls)).sample((n,), seed=key))
        jac = est(jnp.asarray(m), jnp.asarray(ls), key)
        d = (x - m) / np.exp(ls)
        if which == 'score':
          e = [fv(x)[:, None] * d / np.exp(ls), fv(x)[:, None] * (d**2 - 1)]
        else:
          e = [fg(x), fg(x) * (x - m)]
        same(ctx, '%s of %s: mean rows' % (which, name), jac[0], e[0], 1e-8)
        same(ctx, '%s of %s: log scale rows' % (which, name), jac[1], e[1], 1e-8)
        ctx.states += n
        ctx.traces += 1


def gaussian(ctx, dim, seeds):
  """The Gaussian itself: density, samples, parameters."""
  for m, ls in itertools.product(MEANS[dim], STDS[dim]):
    m, ls = np.array(m), np.array(ls)
    d = optax.multi_normal(jnp.asarray(m), jnp.asarray(ls))
    x = np.array(list(itertools.product((-2., 0., 0.5, 3.), repeat=dim)))
    e = (-0.5 * ((x - m) / np.exp(ls))**2 - ls - 0.5 * math.log(2 * math.pi)).sum(-1)
    same(ctx, 'log density', d.log_prob(jnp.asarray(x)), e)
    same(ctx, 'log density of one sample', d.log_prob(jnp.asarray(x[1])), e[1])
    same(ctx, 'log scale', d.log_scale, ls)
    same(ctx, 'mean parameter', d.params[0], m)
    same(ctx, 'scale parameter', d.params[1], ls)
    for seed in seeds:
      s = np.asarray(d.sample((3000,), seed=jax.random.PRNGKey(seed)))
      if s.shape != (3000, dim):
        ctx.fail('samples of shape %s' % (s.shape,))
      noise.judge(ctx, 'samples of the Gaussian, key %d' % seed, (s - m) / np.exp(ls))
      ctx.states += 3000
    for shape in ((), (4,), (2, 3)):
      if d.sample(shape, seed=jax.random.PRNGKey(0)).shape != shape + (dim,):
        ctx.fail('sample shape %s' % (shape,))
    ctx.traces += 1


# ---------------------------------------------------------------- measure-valued


def ks(ctx, what, x, cdf):
  x = np.sort(np.asarray(x).reshape(-1))
  n = x.size
  c = cdf(x)
  d = max(np.abs(c - np.arange(n) / n).max(), np.abs(c - np.arange(1, n + 1) / n).max())
  ctx.transitions += n
  if not d <= 3.2 / math.sqrt(n):
    ctx.fail('%s: the draws differ from their law by %g (%d draws)' % (what, d, n))


def phi(x):
  return 0.5 * (1 + noise.erf(x / math.sqrt(2)))


def uncorrelated(ctx, what, a, b):
  a, b = (a - a.mean()) / a.std(), (b - b.mean()) / b.std()
  n = a.size
  ctx.transitions += n
  for f in (lambda v: v, lambda v: (v**2 - (v**2).mean()) / (v**2).std()):
    if abs((f(a) * f(b)).mean()) > 8 / math.sqrt(n):
      ctx.fail('%s are correlated: %g' % (what, (f(a) * f(b)).mean()))


def measure(ctx, dim, coupling, n, seeds, mode, m, ls):
  """Draws recovered from monomials; every other function then follows exactly; the draws obey their laws."""
  wrap = jax.jit if mode == 'jit' else (lambda f: f)
  m, ls = np.array(m), np.array(ls)
  s = np.exp(ls)
  c = math.sqrt(2 * math.pi)
  for seed in seeds:
    key = jax.random.PRNGKey(seed)

    def est(f, mm=m, k=key, num=n):
      g = wrap(lambda a, b: optax.measure_valued_jacobians(f, [a, b], optax.multi_normal, k, num, coupling))
      jac = g(jnp.asarray(mm), jnp.asarray(ls))
      if len(jac) != 2 or any(np.shape(j) != (num, dim) for j in jac):
        ctx.fail('Jacobian shapes %s' % ([np.shape(j) for j in jac],))
      return [np.asarray(j, np.float64) for j in jac]
    zero = np.zeros(dim)
    j1 = est(lambda x: jnp.sum(x), zero)
    j2 = est(lambda x: jnp.sum(x**2), zero)
    # Mean: (W+ + W-) / c and s (W+^2 - W-^2) / c.
    tot = j1[0] * c
    dif = j2[0] * c / (s * tot)
    wp, wn = (tot + dif) / 2, (tot - dif) / 2
    # Scale: s (M - N) and s^2 (M^2 - N^2).
    a, b = j1[1] / s, j2[1] / s**2
    mm_, nn_ = (a + b / a) / 2, (b / a - a) / 2
    good = np.abs(a) > 1e-4  # the quotient is inaccurate next to M = N
    for w, side in ((wp, 'positive'), (wn, 'negative')):
      ks(ctx, 'mean, %s part' % side, w, lambda x: np.where(x > 0, 1 - np.exp(-np.maximum(x, 0)**2 / 2), 0))
    ks(ctx, 'scale, positive part', mm_, lambda x: phi(x) - x * np.exp(-x**2 / 2) / math.sqrt(2 * math.pi))
    ks(ctx, 'scale, negative part', nn_, phi)
    if coupling:
      same(ctx, 'coupled parts', wp, wn, 1e-7)
      if (np.abs(nn_) > np.abs(mm_) + 1e-3)[good].any() or (nn_ * mm_ < -1e-3)[good].any():
        ctx.fail('the coupled negative part is not a fraction of the positive one')
    else:
      uncorrelated(ctx, 'mean: positive and negative parts', wp.reshape(-1), wn.reshape(-1))
      uncorrelated(ctx, 'scale: positive and negative parts', mm_.reshape(-1), nn_.reshape(-1))
    for i, j in itertools.combinations(range(dim), 2):
      for v, what in ((wp, 'mean'), (wn, 'mean'), (mm_, 'scale'), (nn_, 'scale')):
        uncorrelated(ctx, '%s: dimensions %d and %d' % (what, i, j), v[:, i], v[:, j])
    # The other dimensions keep ordinary samples, independent of the replaced one.
    base = np.zeros((n, dim))
    for i in range(dim):
      if dim == 1:
        break
      jj = est(lambda x, i=i: jnp.sum(x) * x[i] - x[i]**2)
      o = (i + 1) % dim
      # d/dmean_o of x_i * x_o: x_i (W+ + W-) / c.
      base[:, i] = jj[0][:, o] * c / tot[:, o]
      for q in range(dim):
        if q != i:
          same(ctx, 'samples of dimension %d next to %d' % (i, q), jj[0][:, q], base[:, i] * tot[:, q] / c, 1e-8)
          same(ctx, 'samples of dimension %d next to %d (scale)' % (i, q), jj[1][:, q], base[:, i] * a[:, q] * s[q], 1e-8)
          uncorrelated(ctx, 'dimension %d and the replaced dimension %d' % (i, q), base[:, i], wp[:, q])
          uncorrelated(ctx, 'dimension %d and the replaced dimension %d' % (i, q), base[:, i], mm_[:, q])
    if dim > 1:
      noise.judge(ctx, 'ordinary samples', (base - m) / s)
    # Every function of the family, row by row.
    for name, (f, fv, _, _, _) in GAUSS.items():
      got = est(f)
      for q in range(dim):
        pos, neg = base.copy(), base.copy()
        pos[:, q], neg[:, q] = m[q] + s[q] * wp[:, q], m[q] - s[q] * wn[:, q]
        same(ctx, '%s: mean rows' % name, got[0][:, q], (fv(pos) - fv(neg)) / (c * s[q]), 1e-7)
        pos[:, q], neg[:, q] = m[q] + s[q] * mm_[:, q], m[q] + s[q] * nn_[:, q]
        same(ctx, '%s: scale rows' % name, got[1][good[:, q], q], (fv(pos) - fv(neg))[good[:, q]], 1e-6)
    # Smaller sample counts and other keys are as valid.
    k2 = jax.random.PRNGKey(seed + 77)
    other = est(lambda x: jnp.sum(x), zero, k2)
    if np.isin(np.round(other[0], 12), np.round(j1[0], 12)).any():
      ctx.fail('different keys share draws')
    for num in (1, 2, 5):
      est(lambda x: jnp.sum(x), zero, key, num)
    ctx.states += n
    ctx.traces += 1
  ctx.sample({'dimension': dim, 'coupling': coupling, 'draws': n})


def helpers(ctx):
  """The diagonal and tiling helpers on every small shape; unsupported builders are refused."""
  for n, d in itertools.product((1, 2, 3, 4), (1, 2, 3, 4)):
    a = np.arange(n * d * d, dtype=float).reshape(n, d, d) + 1
    diag = -np.arange(n * d, dtype=float).reshape(n, d) - 1
    e = a.copy()
    for i in range(n):
      for j in range(d):
        e[i, j, j] = diag[i, j]
    for f in (utils.set_diags, jax.jit(utils.set_diags)):
      same(ctx, 'set_diags', f(jnp.asarray(a), jnp.asarray(diag)), e, 0)
    x = np.arange(n * d, dtype=float).reshape(n, d) - 3
    for f in (utils.tile_second_to_last_dim, jax.jit(utils.tile_second_to_last_dim)):
      same(ctx, 'tile', f(jnp.asarray(x)), np.stack([x] * d, -1), 0)
    ctx.states += 1
    ctx.traces += 1
  try:
    optax.measure_valued_jacobians(lambda x: jnp.sum(x), [jnp.zeros(2), jnp.zeros(2)], lambda a, b: optax.multi_normal(a, b), jax.random.PRNGKey(0), 3)
  except ValueError:
    return
  ctx.fail('measure_valued_jacobians accepts a distribution it does not support')


def UNITS(tier):
  T = tier == 'thorough'
  u = [('helpers', helpers, {})]
  for mode in ('eager', 'jit'):
    for n in (1, 2, 3, 4) + ((5, 6) if T else ()):
      if mode == 'jit' or n < 4:
        u.append(('categorical%d-%s' % (n, mode), score_categorical, dict(n=n, mode=mode)))
    u.append(('shapes-' + mode, score_shapes, dict(mode=mode)))
    u.append(('moving-' + mode, score_moving, dict(mode=mode)))
    for n in (1, 2, 3, 4, 5) if mode == 'jit' else (2,):
      u.append(('bits%d-%s' % (n, mode), score_bits, dict(n=n, mode=mode)))
  for which in ('score', 'pathwise'):
    for dim, order in ((1, 24), (2, 16), (3, 9 if not T else 16)):
      if dim == 3 and not T and which == 'score':
        order = 10
      u.append(('quad-%s-%d' % (which, dim), quadrature, dict(dim=dim, order=order, which=which, mode='jit')))
    u.append(('quad-%s-eager' % which, quadrature, dict(dim=2, order=16, which=which, mode='eager')))
    for dim in (1, 2, 3):
      u.append(('rows-%s-%d' % (which, dim), rows, dict(which=which, dim=dim, n=37, seeds=(0, 1, 9) if T else (0, 9), mode='jit')))
    u.append(('rows-%s-eager' % which, rows, dict(which=which, dim=2, n=3, seeds=(0,), mode='eager')))
  for dim in (1, 2, 3):
    u.append(('gaussian-%d' % dim, gaussian, dict(dim=dim, seeds=(0, 1, 2) if T else (0, 1))))
    for coupling in (True, False):
      for i, (m, ls) in enumerate(itertools.product(MEANS[dim], STDS[dim])):
        if not T and i not in (0, 4, 5):
          continue
        u.append(('measure-%d-%s-%d' % (dim, coupling, i), measure,
                  dict(dim=dim, coupling=coupling, n=3000 if T else 1500, seeds=(0, 5) if T else (0,), mode='jit' if T else 'eager', m=m, ls=ls)))
    for coupling in (True, False):
      for i, ls in enumerate(EXTREME[dim]):
        u.append(('measure-extreme-%d-%s-%d' % (dim, coupling, i), measure,
                  dict(dim=dim, coupling=coupling, n=3000 if T else 1000, seeds=(0,), mode='jit', m=MEANS[dim][-1], ls=ls)))
  u.append(('measure-jit', measure, dict(dim=2, coupling=True, n=500, seeds=(3,), mode='jit', m=[0.3, -0.2], ls=[0.1, 0.4])))
  return u
