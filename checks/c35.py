"""C35: power iteration and inverse roots satisfy their defining equations."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax
from optax._src import linear_algebra as la

from mc.trees import ALL, Tree, grads

ASSUMPTIONS = ['spectra and rotations outside the alphabets behave like those in them',
               'spectral gaps of at least 10 percent and condition numbers up to 1e4 (1e3 in single precision)']


def rotation(n, k):
  if k == 0:
    return np.eye(n)
  q, _ = np.linalg.qr(np.modf(0.6180339887 * (np.arange(n * n) + 1) * (k + 1))[0].reshape(n, n) - 0.5)
  return q


def matrix(ev, k):
  q = rotation(len(ev), k)
  a = (q * np.asarray(ev)) @ q.T
  return (a + a.T) / 2


def spectra(n, alphabet=(1., 0.9, 0.5, 0.1, 0.)):
  """All spectra over the alphabet with a simple largest eigenvalue 1."""
  for rest in itertools.combinations_with_replacement(alphabet[1:], n - 1):
    yield (1.,) + rest


def power(ctx, n, rotations, scales, seeds, mode, tol):
  """Every spectrum, rotation, scale and start vector."""
  run = jax.jit(la.power_iteration) if mode == 'jit' else la.power_iteration
  for ev in spectra(n):
    gap = max(ev[1:]) if n > 1 else 0.
    for k, scale, seed in itertools.product(rotations, scales, seeds):
      a = matrix(np.array(ev) * scale, k)
      np.random.seed(seed)
      if mode == 'jit':
        run = jax.jit(lambda m: la.power_iteration(m))  # the start is drawn when tracing
      v, s = run(jnp.asarray(a, float))
      v, s = np.asarray(v, np.float64), float(s)
      ctx.transitions += 1
      where = 'spectrum %s * %g, rotation %d, start %d' % (ev, scale, k, seed)
      if v.shape != (n,) or np.ndim(s):
        ctx.fail('%s: returns shapes %s' % (where, v.shape))
      if abs(np.linalg.norm(v) - 1) > 1e-5:
        ctx.fail('%s: the eigenvector has norm %r' % (where, np.linalg.norm(v)))
      if abs(s - scale) > tol * max(1., scale):
        ctx.fail('%s: largest eigenvalue %r' % (where, s))
      # The eigenvalue stops changing by 1e-6: the vector is at least this close.
      bound = np.sqrt(5 * 1e-6 * max(1, 1 / scale) / max(1e-3, 1 - gap)) + 100 * tol
      if np.abs(a @ v - scale * v).max() > bound * scale:
        ctx.fail('%s: A v - lambda v = %s' % (where, a @ v - scale * v))
      ctx.outcomes.add((n, ev, round(s, 4)))
      ctx.states += 1
    ctx.traces += 1
  ctx.sample({'size': n, 'spectra': len(list(spectra(n)))})


def power_options(ctx):
  """More iterations and a finer tolerance reach working accuracy; the limits are respected."""
  for n in (2, 3, 4):
    for ev in spectra(n, (1., 0.8, 0.5, 0.1, 0.)):
      for seed in (0, 1):
        a = matrix(ev, 1)
        np.random.seed(seed)
        v, s = la.power_iteration(jnp.asarray(a), num_iters=2000, error_tolerance=1e-15)
        v = np.asarray(v)
        ctx.transitions += 1
        if abs(float(s) - 1) > 1e-10 or np.abs(a @ v - v).max() > 1e-5:
          ctx.fail('2000 iterations on %s: %r, residual %g' % (ev, float(s), np.abs(a @ v - v).max()))
        # A single iteration is one multiplication of the start vector.
        np.random.seed(seed)
        v0 = np.random.uniform(-1., 1., n)
        np.random.seed(seed)
        v, s = la.power_iteration(jnp.asarray(a), num_iters=1)
        u = v0 / np.linalg.norm(v0)
        e = a @ u
        if np.linalg.norm(e) > 1e-6 and np.abs(np.asarray(v) - e / np.linalg.norm(e)).max() > 1e-8 or abs(float(s) - u @ e) > 1e-8:
          ctx.fail('one iteration on %s is not one multiplication' % (ev,))
        ctx.states += 1
    ctx.traces += 1


ROOT_EV = (1., 0.3, 0.01, 1e-4)


def roots(ctx, n, ps, rotations, scales, ridge, mode, seed=0, evs=ROOT_EV):
  """Every spectrum, rotation and scale for every p; p is static or traced."""
  x64 = jax.config.jax_enable_x64
  for p in ps:
    np.random.seed(seed)
    if mode == 'jit':
      f = jax.jit(lambda m, p=p: la.matrix_inverse_pth_root(m, p, ridge_epsilon=ridge) if ridge != 1e-6 else la.matrix_inverse_pth_root(m, p))
    elif mode == 'traced':
      g = jax.jit(la.matrix_inverse_pth_root)
      f = lambda m, p=p: g(m, p)
    else:
      f = lambda m, p=p: la.matrix_inverse_pth_root(m, p, ridge_epsilon=ridge)
    for ev in itertools.combinations_with_replacement(evs, n):
      if ev[0] != 1.:
        continue
      for k, scale in itertools.product(rotations, scales):
        a = np.asarray(jnp.asarray(matrix(np.array(ev) * scale, k), float), np.float64)
        x, err = f(jnp.asarray(a, float))
        if np.shape(x) != (n, n) or np.ndim(err):
          ctx.fail('root of shape %s, error of shape %s' % (np.shape(x), np.shape(err)))
        x = np.asarray(x, np.float64)
        r = np.linalg.matrix_power(x, p) @ (a + ridge * scale * np.eye(n)) - np.eye(n)
        ctx.transitions += 1
        where = 'p=%d, spectrum %s * %g, rotation %d' % (p, ev, scale, k)
        cond = ev[0] / (ev[-1] + ridge)
        # The largest eigenvalue in the ridge is known up to the 1e-6 of the power iteration.
        tol = 4e-6 + 3 * ridge * cond * 1e-6 / scale * p if x64 else 2e-5 + 3e-6 * p * cond
        if not np.abs(r).max() <= tol:
          ctx.fail('%s: X^p A - I = %g' % (where, np.abs(r).max()))
        if not (float(err) <= 2e-6 and float(err) >= 0):
          ctx.fail('%s: reported error %r' % (where, float(err)))
        if not np.abs(x - x.T).max() <= (1e-7 if x64 else 1e-4) * np.abs(x).max() * (1 if x64 else cond):
          ctx.fail('%s: the root is not symmetric' % where)
        ctx.outcomes.add((n, p, round(float(x[0, 0]), 5)))
        ctx.states += 1
      ctx.traces += 1
  ctx.sample({'size': n, 'p': list(ps)})


def norms(ctx, tree, letters, rtol):
  """The global norm is the norm of all entries of all leaves."""
  t = Tree(tree)
  for name, g in grads(t, letters):
    e = np.sqrt(sum((x**2).sum() for x in g))
    for f in (optax.global_norm, jax.jit(optax.global_norm)):
      n = f(t.build(g))
      ctx.transitions += 1
      if np.ndim(n) or not (abs(float(n) - e) <= rtol * e or (np.isnan(e) and np.isnan(float(n))) or e == float(n)):
        ctx.fail('global norm of %s on %s: %r, expected %r' % (name, tree, float(n), e))
    ctx.outcomes.add(round(float(e), 5) if np.isfinite(e) else str(e))
  # Every single entry counts.
  for i, s in enumerate(t.shapes):
    for k in range(min(int(np.prod(s, dtype=np.int64)), 40)):
      g = t.zeros()
      g[i].reshape(-1)[k] = -3.
      ctx.transitions += 1
      if float(optax.global_norm(t.build(g))) != 3.:
        ctx.fail('global norm misses entry %d of leaf %d of %s' % (k, i, tree))
  ctx.states += len(letters)
  ctx.traces += 1


def UNITS(tier):
  T = tier == 'thorough'
  u = [('power-options', power_options, {})]
  seeds = tuple(range(12)) if T else (0, 1, 2, 3)
  for n in (1, 2, 3, 4) + ((5, 6) if T else (5,)):
    for k in (0, 1, 2):
      u.append(('power-%d-%d' % (n, k), power, dict(n=n, rotations=(k,), scales=(1., 0.05, 300.) if n < 4 or T else (1.,),
                                                   seeds=seeds if n < 4 or T else seeds[:2], mode='eager', tol=2e-5)))
    u.append(('power32-%d' % n, power, dict(n=n, rotations=(0, 2), scales=(1., 30.) if n < 5 else (1.,), seeds=seeds[:2], mode='eager', tol=3e-5, x64=False)))
  u.append(('power-jit', power, dict(n=3, rotations=(1,), scales=(1.,), seeds=(0, 1), mode='jit', tol=2e-5)))
  ps = tuple(range(1, 17)) if not T else tuple(range(1, 33))
  for n in (1, 2, 3, 4) + ((5,) if T else ()):
    for i in range(4):
      u.append(('root-%d-%d' % (n, i), roots, dict(n=n, ps=ps[i::4], rotations=(0, 1, 3), scales=(1., 0.02, 50.), ridge=1e-6, mode='jit')))
  u.append(('root-5', roots, dict(n=5, ps=(1, 2, 3, 7, 12), rotations=(1,), scales=(1., 3.), ridge=1e-6, mode='jit')))
  for ridge in (1e-3, 0.1, 1e-9):
    u.append(('ridge-%g' % ridge, roots, dict(n=3, ps=(1, 2, 3, 5), rotations=(0, 2), scales=(1., 7.), ridge=ridge, mode='jit')))
  for n in (2, 3):
    u.append(('traced-%d' % n, roots, dict(n=n, ps=ps, rotations=(1,), scales=(1., 4.), ridge=1e-6, mode='traced')))
  u.append(('root-eager', roots, dict(n=2, ps=(1, 2, 3, 4, 5, 6), rotations=(1,), scales=(1.,), ridge=1e-6, mode='eager', seed=4)))
  for n in (1, 2, 3, 4):
    u.append(('root32-%d' % n, roots, dict(n=n, ps=ps[:12], rotations=(0, 1), scales=(1., 20.), ridge=1e-6, mode='jit', evs=(1., 0.3, 0.02, 1e-3), x64=False)))
  for tree in ALL:
    u.append(('norm-' + tree, norms, dict(tree=tree, letters='zabLstphHNI', rtol=1e-12)))
  u.append(('norm32', norms, dict(tree='nest', letters='zabLsphH', rtol=1e-5, x64=False)))
  return u
