"""C31: losses match their definitions, stay finite, and have exact gradients."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

ASSUMPTIONS = ['entries outside the alphabets behave like those in them']
LD = np.longdouble

BATCH = [(), (1,), (3,), (2, 3), (1, 4), (2, 1, 2)]


def check(ctx, what, got, exp, rtol, atol=None, shape=None):
  got = np.asarray(got)
  exp = np.asarray(exp)
  ctx.transitions += max(1, got.size)
  if got.shape != (exp.shape if shape is None else shape):
    ctx.fail('%s: shape %s, expected %s' % (what, got.shape, exp.shape))
  g, e = got.astype(LD), exp.astype(LD)
  with np.errstate(all='ignore'):
    ok = np.abs(g - e) <= (rtol if atol is None else atol) + rtol * np.abs(e)
  if not ok.all():
    i = int(np.argmax(~ok.reshape(-1)))
    ctx.fail('%s: entry %d is %r, expected %r' % (what, i, float(g.reshape(-1)[i]), float(e.reshape(-1)[i])))
  ctx.outcomes.add((what[:30], float(np.round(float(g.reshape(-1)[-1]), 6)) if g.size else None))


def softplus(x):
  x = np.asarray(x, LD)
  return np.maximum(x, 0) + np.log1p(np.exp(-np.abs(x)))


def sigmoid(x):
  x = np.asarray(x, LD)
  with np.errstate(all='ignore'):
    return np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))), np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))))


def log_softmax(x):
  x = np.asarray(x, LD)
  m = x.max(-1, keepdims=True)
  return x - m - np.log(np.exp(x - m).sum(-1, keepdims=True))


def modes(f):
  return (('eager', f), ('jit', jax.jit(f)))


def grad_of(f):
  """Gradients of the sum of the losses with respect to both inputs."""
  return jax.jit(jax.grad(lambda *a: jnp.sum(f(*a)), argnums=(0, 1)))


ERR = [0., -0., 1e-30, 1e-8, 0.1, 0.5, 0.999, 1., 1.001, 1.7, 2., 3., 10., 1e4, 1e8]
ERR = ERR + [-x for x in ERR]


def l2(ctx, rtol):
  """All pairs of prediction and target entries; missing target; batch shapes; gradients."""
  p, t = [a.reshape(-1) for a in np.meshgrid(ERR, ERR)]
  ft = jnp.result_type(float)
  p, t = np.asarray(p, ft), np.asarray(t, ft)
  for name, f in modes(optax.l2_loss):
    check(ctx, 'l2 (%s)' % name, f(jnp.asarray(p), jnp.asarray(t)), 0.5 * (p.astype(LD) - t)**2, rtol, atol=rtol)
    check(ctx, 'l2 without target (%s)' % name, f(jnp.asarray(p)), 0.5 * p.astype(LD)**2, rtol)
    for shape in BATCH:
      n = int(np.prod(shape))
      for k in range(0, p.size - n, 37):
        a, b = p[k:k + n].reshape(shape), t[k:k + n].reshape(shape)
        check(ctx, 'l2 %s (%s)' % (shape, name), f(jnp.asarray(a), jnp.asarray(b)), 0.5 * (a.astype(LD) - b)**2, rtol, atol=rtol)
    check(ctx, 'l2 broadcast', f(jnp.asarray(p), jnp.asarray(t[5])), 0.5 * (p.astype(LD) - t[5])**2, rtol, atol=rtol)
    check(ctx, 'l2 broadcast', f(jnp.asarray(p[:6].reshape(2, 3)), jnp.asarray(t[3:6])), 0.5 * (p[:6].reshape(2, 3).astype(LD) - t[3:6])**2, rtol, atol=rtol)
  gp, gt = grad_of(optax.l2_loss)(jnp.asarray(p), jnp.asarray(t))
  check(ctx, 'l2 gradient', gp, p.astype(LD) - t, rtol)
  check(ctx, 'l2 gradient (target)', gt, t.astype(LD) - p, rtol)
  check(ctx, 'l2 gradient without target', jax.grad(lambda x: jnp.sum(optax.l2_loss(x)))(jnp.asarray(p)), p, rtol)
  ctx.states += p.size
  ctx.traces += p.size
  ctx.sample({'loss': 'l2', 'pairs': int(p.size)})


def huber(ctx, deltas, rtol):
  ft = jnp.result_type(float)
  for d in deltas:
    d_ = float(np.asarray(d, ft))
    base = ERR + [d_, -d_, d_ * 0.5, -1.5 * d_, float(np.nextafter(np.asarray(d_, ft), np.asarray(9, ft))),
                  float(np.nextafter(np.asarray(d_, ft), np.asarray(0, ft)))]
    p, t = [np.asarray(a.reshape(-1), ft) for a in np.meshgrid(base, [0.] + ERR[3:11:2] + [-d_, 2.])]
    e = (p - t).astype(LD)
    exp = np.where(np.abs(e) <= d_, 0.5 * e**2, LD(d_) * (np.abs(e) - LD(d_) / 2))
    for name, f in modes(lambda a, b, d=d: optax.huber_loss(a, b, d)):
      check(ctx, 'huber %s (%s)' % (d, name), f(jnp.asarray(p), jnp.asarray(t)), exp, rtol)
      for shape in BATCH:
        n = int(np.prod(shape))
        for k in range(0, p.size - n, 29):
          check(ctx, 'huber %s %s' % (d, shape), f(jnp.asarray(p[k:k + n].reshape(shape)), jnp.asarray(t[k:k + n].reshape(shape))),
                exp[k:k + n].reshape(shape), rtol)
    z = p.astype(LD)
    expz = np.where(np.abs(z) <= d_, 0.5 * z**2, LD(d_) * (np.abs(z) - LD(d_) / 2))
    check(ctx, 'huber %s without target' % d, optax.huber_loss(jnp.asarray(p), delta=d), expz, rtol)
    if d == 1.:
      check(ctx, 'huber default', optax.huber_loss(jnp.asarray(p), jnp.asarray(t)), exp, rtol)
      check(ctx, 'huber default without target', optax.huber_loss(jnp.asarray(p)), expz, rtol)
    gp, gt = grad_of(lambda a, b, d=d: optax.huber_loss(a, b, d))(jnp.asarray(p), jnp.asarray(t))
    check(ctx, 'huber %s gradient' % d, gp, np.clip(e, -d_, d_), rtol, atol=rtol * max(1., d_))
    check(ctx, 'huber %s gradient (target)' % d, gt, -np.clip(e, -d_, d_), rtol, atol=rtol * max(1., d_))
    ctx.states += p.size
    ctx.traces += p.size
  ctx.sample({'loss': 'huber', 'deltas': list(deltas)})


LOGITS = [0., -0., 1e-8, 0.3, 1., 2.5, 10., 20., 37., 50., 88., 104., 500., 800., 1e4]
LOGITS = LOGITS + [-x for x in LOGITS]
LABELS = [0., 1., 0.5, 0.1, 0.9, 1e-6]


def bce(ctx, rtol):
  ft = jnp.result_type(float)
  x, y = [np.asarray(a.reshape(-1), ft) for a in np.meshgrid(LOGITS, LABELS)]
  xl, yl = x.astype(LD), y.astype(LD)
  exp = yl * softplus(-xl) + (1 - yl) * softplus(xl)
  for name, f in modes(optax.sigmoid_binary_cross_entropy):
    # Relative accuracy: the loss of a confident correct answer is tiny, not zero.
    v = np.asarray(f(jnp.asarray(x), jnp.asarray(y)))
    check(ctx, 'sigmoid cross entropy (%s)' % name, v, exp, rtol * 8, atol=1e-30)
    for shape in BATCH:
      n = int(np.prod(shape))
      for k in range(0, x.size - n, 23):
        check(ctx, 'sigmoid cross entropy %s' % (shape,), f(jnp.asarray(x[k:k + n].reshape(shape)), jnp.asarray(y[k:k + n].reshape(shape))),
              exp[k:k + n].reshape(shape), rtol * 8, atol=1e-30)
    check(ctx, 'sigmoid cross entropy, broadcast logits', f(jnp.asarray(x[7:10]), jnp.asarray(y[:6].reshape(2, 3))),
          y[:6].reshape(2, 3) * softplus(-xl[7:10]) + (1 - yl[:6].reshape(2, 3)) * softplus(xl[7:10]), rtol * 8)
  gx, gy = grad_of(optax.sigmoid_binary_cross_entropy)(jnp.asarray(x), jnp.asarray(y))
  check(ctx, 'sigmoid cross entropy gradient', gx, sigmoid(xl) - yl, rtol * 8)
  check(ctx, 'sigmoid cross entropy gradient (labels)', gy, -xl, rtol * 8)
  ctx.states += x.size
  ctx.traces += x.size
  ctx.sample({'loss': 'sigmoid cross entropy', 'pairs': int(x.size)})


def xent(ctx, alphabet, k, labels, rtol, shapes=BATCH):
  """All logit vectors of length k over the alphabet with several label vectors."""
  ft = jnp.result_type(float)
  X = np.array(list(itertools.product(alphabet, repeat=k)), ft)
  f = jax.jit(optax.softmax_cross_entropy)
  g = grad_of(optax.softmax_cross_entropy)
  ls = log_softmax(X)
  soft = np.exp(ls)
  for y in labels(k):
    Y = np.broadcast_to(np.asarray(y, ft), X.shape)
    yl = Y.astype(LD)
    exp = -(yl * ls).sum(-1)
    big = 1 + np.abs(X).max(-1)
    v = np.asarray(f(jnp.asarray(X), jnp.asarray(Y)))
    check(ctx, 'softmax cross entropy, labels %s' % (y,), v / big, exp / big, rtol * 4)
    # A confident correct answer keeps its relative accuracy when one-hot.
    gx, gy = g(jnp.asarray(X), jnp.asarray(Y))
    check(ctx, 'softmax cross entropy gradient, labels %s' % (y,), gx, soft * yl.sum(-1, keepdims=True) - yl, rtol * 8)
    check(ctx, 'softmax cross entropy gradient (labels)', np.asarray(gy) / big[:, None], -ls / big[:, None], rtol * 4)
    ctx.states += len(X)
    ctx.traces += len(X)
    for shape in shapes:
      n = int(np.prod(shape))
      if n > len(X):
        continue
      for s in range(0, len(X) - n + 1, max(1, len(X) // 3)):
        for name, h in modes(optax.softmax_cross_entropy):
          if name == 'eager' and s:
            continue
          w = np.asarray(h(jnp.asarray(X[s:s + n].reshape(shape + (k,))), jnp.asarray(Y[s:s + n].reshape(shape + (k,)))))
          check(ctx, 'softmax cross entropy %s (%s)' % (shape, name), w / big[s:s + n].reshape(shape), (exp / big)[s:s + n].reshape(shape), rtol * 4)
    m = min(3, len(X))
    w = np.asarray(optax.softmax_cross_entropy(jnp.asarray(X[-1]), jnp.asarray(Y[:m])))
    check(ctx, 'softmax cross entropy, broadcast logits', w / big[-1], np.broadcast_to(exp[-1], (m,)) / big[-1], rtol * 8)
  ctx.sample({'loss': 'softmax cross entropy', 'categories': k, 'logit vectors': len(X)})


def label_sets(k):
  out = [[float(i == j) for i in range(k)] for j in range(k)]
  out += [[1. / k] * k, [0.] * k]
  if k > 1:
    out += [[0.7] + [0.3 / (k - 1)] * (k - 1), [2.] + [0.5] * (k - 1)]
  return out


def smoothing(ctx, rtol):
  for k in (1, 2, 3, 5, 10):
    for shape in BATCH:
      for alpha in (0., 1e-3, 0.1, 0.5, 0.9, 1.):
        n = int(np.prod(shape))
        for hot in range(k):
          y = np.zeros((n, k))
          y[np.arange(n), (np.arange(n) + hot) % k] = 1.
          y = y.reshape(shape + (k,))
          e = (1 - alpha) * y + alpha / k
          s = optax.smooth_labels(jnp.asarray(y, float), alpha)
          check(ctx, 'smoothing %s' % alpha, s, e, rtol)
          check(ctx, 'smoothing keeps the total', jnp.sum(s, -1), np.ones(shape), rtol * 10)
        ctx.states += k
        ctx.traces += 1
  for alpha in (0.2, jnp.asarray(0.2)):
    y = np.array([0.2, 0.5, 0.3])
    check(ctx, 'smoothing soft labels', jax.jit(optax.smooth_labels)(jnp.asarray(y, float), alpha), 0.8 * y + 0.2 / 3, rtol)


def unit(x, eps):
  n = np.sqrt((x**2).sum(-1, keepdims=True))
  return x / np.maximum(n, LD(eps))


def cosine(ctx, k, eps, rtol):
  """All pairs of vectors over an alphabet; values, gradients, zero vectors."""
  ft = jnp.result_type(float)
  al = [0., 1., -2., 0.5, 1e-3] if k < 3 else [0., 1., -2.]
  V = np.array(list(itertools.product(al, repeat=k)), ft)
  scales = (1., 1e-4, 1e4)
  V = np.concatenate([V * s for s in scales])
  i, j = [a.reshape(-1) for a in np.meshgrid(np.arange(len(V)), np.arange(len(V)))]
  p, t = V[i], V[j]
  if eps == 0:
    keep = (p != 0).any(-1) & (t != 0).any(-1)
    p, t = p[keep], t[keep]
  pl, tl = p.astype(LD), t.astype(LD)
  up, ut = unit(pl, eps), unit(tl, eps)
  exp = (up * ut).sum(-1)
  f = lambda a, b: optax.cosine_similarity(a, b, eps)
  d = lambda a, b: optax.cosine_distance(a, b, eps)
  for name, h in modes(f):
    check(ctx, 'cosine similarity eps=%s (%s)' % (eps, name), h(jnp.asarray(p), jnp.asarray(t)), exp, rtol * 8)
  for name, h in modes(d):
    check(ctx, 'cosine distance eps=%s (%s)' % (eps, name), h(jnp.asarray(p), jnp.asarray(t)), 1 - exp, rtol * 8)
  if eps == 0:
    check(ctx, 'cosine similarity default', optax.cosine_similarity(jnp.asarray(p), jnp.asarray(t)), exp, rtol * 8)
    check(ctx, 'cosine distance default', optax.cosine_distance(jnp.asarray(p), jnp.asarray(t)), 1 - exp, rtol * 8)
  n = np.sqrt((pl**2).sum(-1, keepdims=True))
  # Exact gradient: projected when the norm counts, plain below the minimum norm.
  with np.errstate(all='ignore'):
    e_p = np.where(n > eps, (ut - exp[:, None] * up) / n, ut / LD(eps if eps else 1))
  gp, gt = grad_of(f)(jnp.asarray(p), jnp.asarray(t))
  edge = np.abs(n - LD(eps)) <= 1e-6 * LD(max(eps, 1e-30))
  ok = ~edge[:, 0]
  sc = np.where(n > eps, n, LD(eps if eps else 1))
  check(ctx, 'cosine similarity gradient eps=%s' % eps, (np.asarray(gp).astype(LD) * sc)[ok], (e_p * sc)[ok], rtol * 30)
  nt = np.sqrt((tl**2).sum(-1, keepdims=True))
  with np.errstate(all='ignore'):
    e_t = np.where(nt > eps, (up - exp[:, None] * ut) / nt, up / LD(eps if eps else 1))
  okt = ~(np.abs(nt - LD(eps)) <= 1e-6 * LD(max(eps, 1e-30)))[:, 0]
  sct = np.where(nt > eps, nt, LD(eps if eps else 1))
  check(ctx, 'cosine similarity gradient (target) eps=%s' % eps, (np.asarray(gt).astype(LD) * sct)[okt], (e_t * sct)[okt], rtol * 30)
  dp, _ = grad_of(d)(jnp.asarray(p), jnp.asarray(t))
  check(ctx, 'cosine distance gradient eps=%s' % eps, np.asarray(dp).astype(LD) * sc, -np.asarray(gp).astype(LD) * sc, rtol * 30)
  for shape in BATCH:
    m = int(np.prod(shape))
    for s in range(0, len(p) - m, max(1, len(p) // 4)):
      check(ctx, 'cosine similarity %s' % (shape,), f(jnp.asarray(p[s:s + m].reshape(shape + (k,))), jnp.asarray(t[s:s + m].reshape(shape + (k,)))),
            exp[s:s + m].reshape(shape), rtol * 8)
      check(ctx, 'cosine distance %s' % (shape,), d(jnp.asarray(p[s:s + m].reshape(shape + (k,))), jnp.asarray(t[s:s + m].reshape(shape + (k,)))),
            1 - exp[s:s + m].reshape(shape), rtol * 8)
  ctx.states += len(p)
  ctx.traces += len(p)
  # One prediction against a batch of targets.
  one = np.broadcast_to(p[-1], t.shape)
  for nm, q in (('similarity', f), ('distance', d)):
    check(ctx, 'cosine %s, broadcast prediction' % nm, q(jnp.asarray(p[-1]), jnp.asarray(t)),
          np.asarray(q(jnp.asarray(one), jnp.asarray(t))).astype(LD), rtol * 8)
  ctx.sample({'loss': 'cosine', 'dimension': k, 'pairs': len(p), 'epsilon': eps})


def rejects(ctx):
  """Integer inputs are refused instead of silently truncated."""
  i, f = jnp.arange(3), jnp.ones(3)
  bad = [lambda: optax.l2_loss(i, f), lambda: optax.l2_loss(i), lambda: optax.huber_loss(i, f),
         lambda: optax.smooth_labels(i, 0.1), lambda: optax.sigmoid_binary_cross_entropy(i, f),
         lambda: optax.sigmoid_binary_cross_entropy(f, i), lambda: optax.softmax_cross_entropy(i, f),
         lambda: optax.softmax_cross_entropy(f, i), lambda: optax.cosine_similarity(i, f), lambda: optax.cosine_similarity(f, i),
         lambda: optax.softmax_cross_entropy(jnp.ones((2, 3)), jnp.ones((4,))),
         lambda: optax.sigmoid_binary_cross_entropy(jnp.ones((2, 3)), jnp.ones((2,))),
         lambda: optax.cosine_similarity(jnp.ones((2, 3)), jnp.ones((4, 3)))]
  for k, b in enumerate(bad):
    ctx.transitions += 1
    try:
      b()
    except (AssertionError, ValueError, TypeError):
      continue
    ctx.fail('invalid loss input number %d was accepted' % k)
  ctx.states += 1
  ctx.traces += 1


def UNITS(tier):
  T = tier == 'thorough'
  u = [('rejects', rejects, {})]
  deltas = (1., 0.1, 0.5, 2., 1e-3, 100.)
  for sfx, kw, rt in (('', {}, 1e-12), ('32', dict(x64=False), 2e-6)):
    u.append(('l2' + sfx, l2, dict(rtol=rt, **kw)))
    for i, d in enumerate(deltas):
      u.append(('huber%s-%d' % (sfx, i), huber, dict(deltas=(d,), rtol=rt, **kw)))
    u.append(('bce' + sfx, bce, dict(rtol=rt, **kw)))
    u.append(('smoothing' + sfx, smoothing, dict(rtol=rt, **kw)))
    big = [0., 1., -1., 0.3, 30., -30., 90., 1e3, -1e3, 1e4, -1e4]
    small = [0., 1., -2.5, 50., 1e4, -1e4]
    u.append(('xent1' + sfx, xent, dict(alphabet=big, k=1, labels=label_sets, rtol=rt, **kw)))
    u.append(('xent2' + sfx, xent, dict(alphabet=big, k=2, labels=label_sets, rtol=rt, **kw)))
    u.append(('xent3' + sfx, xent, dict(alphabet=big, k=3, labels=label_sets, rtol=rt, **kw)))
    u.append(('xent4' + sfx, xent, dict(alphabet=small if not T else big, k=4, labels=label_sets, rtol=rt, **kw)))
    u.append(('xent6' + sfx, xent, dict(alphabet=[0., 3., -1e4] if not T else small, k=6, labels=label_sets, rtol=rt, **kw)))
    for k in (1, 2, 3):
      for eps in (0., 1e-8, 1e-3, 0.5):
        u.append(('cosine%s-%d-%s' % (sfx, k, eps), cosine, dict(k=k, eps=eps, rtol=rt, **kw)))
  return u
