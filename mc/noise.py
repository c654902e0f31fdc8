"""Judging the complete set of noise draws of a run.

The draws of a run are a deterministic function of the seed.  Their distinctness
and their exact scaling are decided draw by draw; their distribution is judged
on the complete set with margins (6 standard errors) that no correct generator
reaches for any practical seed.
"""
import math

import numpy as np


def erf(x):
  return np.array([math.erf(v) for v in np.ravel(x)]).reshape(np.shape(x))


def judge(ctx, label, d):
  """`d` is steps x entries, supposedly independent standard normal draws."""
  d = np.asarray(d, np.float64)
  n = d.size
  flat = np.abs(np.sort(d.reshape(-1)))
  if not np.isfinite(d).all():
    ctx.fail('%s: non-finite noise' % label)
  a = np.sort(flat)
  close = int((np.diff(a) <= 1e-12 * np.maximum(1., a[1:])).sum())
  if close:
    ctx.fail('%s: %d of %d draws repeat another one up to sign' % (label, close, n))
  se = 1. / math.sqrt(n)
  if abs(d.mean()) > 6 * se:
    ctx.fail('%s: mean %g of %d draws' % (label, d.mean(), n))
  if abs((d**2).mean() - 1) > 6 * math.sqrt(2) * se:
    ctx.fail('%s: variance %g of %d draws, expected 1' % (label, (d**2).mean(), n))
  # Kolmogorov-Smirnov distance to the Gaussian.
  x = np.sort(d.reshape(-1))
  cdf = 0.5 * (1 + erf(x / math.sqrt(2)))
  ks = max(np.abs(cdf - np.arange(n) / n).max(), np.abs(cdf - np.arange(1, n + 1) / n).max())
  if ks > 3.2 * se:
    ctx.fail('%s: distribution differs from the Gaussian by %g (%d draws)' % (label, ks, n))
  # No entry may predict another one or the next step, in value or magnitude.
  for f, how in ((lambda v: v, 'value'), (lambda v: (v**2 - 1) / math.sqrt(2), 'size')):
    v = f(d)
    steps, k = v.shape
    pairs = {'neighbouring entries': (v[:, 1:] * v[:, :-1]).reshape(-1),
             'successive steps': (v[1:] * v[:-1]).reshape(-1)}
    if k > 2:
      pairs['entries two apart'] = (v[:, 2:] * v[:, :-2]).reshape(-1)
      pairs['first and last entry'] = v[:, 0] * v[:, -1]
    for name, p in pairs.items():
      if p.size > 30 and abs(p.mean()) > 8. / math.sqrt(p.size):
        ctx.fail('%s: the %s of %s is correlated: %g' % (label, how, name, p.mean()))
    if steps > 200:
      row = v.mean(0) * math.sqrt(steps)
      if np.abs(row).max() > 8.:
        ctx.fail('%s: the %s of entry %d is biased over the steps' % (label, how, int(np.abs(row).argmax())))
    if k > 200:
      col = v.mean(1) * math.sqrt(k)
      if np.abs(col).max() > 8.:
        ctx.fail('%s: the %s of the draws at step %d is biased' % (label, how, int(np.abs(col).argmax())))
  ctx.outcomes.add((label, float(np.round(d.reshape(-1)[0], 6))))
