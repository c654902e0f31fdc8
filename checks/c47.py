"""C47: special settings reduce to simpler transformations; laws between transformations."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc.catalog import maybe

ASSUMPTIONS = ['C04: a compiled loop and single calls agree', 'values outside the alphabets behave like those in them']
tmap = jax.tree_util.tree_map
INF = float('inf')


def base(shape, k):
  n = int(np.prod(shape, dtype=np.int64))
  v = 0.4 + np.modf(0.618034 * (np.arange(n) + 1) + 0.317 * k)[0]
  return (v * np.where((np.arange(n) + k) % 2, 1., -1.)).reshape(shape)


TREES = {
    'mixed': lambda f: {'w': f((2, 3), 0), 'b': (f((3,), 1), f((), 2))},
    'vector': lambda f: f((4,), 1),
    'matrix': lambda f: [f((3, 2), 1), f((2, 1, 2), 2)],
    'scalar': lambda f: {'s': f((), 1)},
    'conv': lambda f: {'k': f((1, 2, 2, 3), 4), 'b': f((2,), 5)},
}
VECTORS = ('vector', 'scalar')
ALL = tuple(TREES)


def letters(f):
  a = TREES[f](base)
  b = TREES[f](lambda s, k: -0.7 * base(s, k + 3))
  return {'a': a, 'b': b, 'z': tmap(np.zeros_like, a), 'L': tmap(lambda x: 40. * x, b), 't': tmap(lambda x: 1e-4 * x, a),
          'A': tmap(lambda x: -x, a)}


def runs(tx, tree, word, depth, pair=False):
  ls = letters(tree)
  table = tmap(lambda *x: jnp.stack([jnp.asarray(y) for y in x]), *[ls[c] for c in word])
  p = tmap(jnp.asarray, TREES[tree](lambda s, k: 0.8 * base(s, k + 9)))
  if pair:
    p = optax.LookaheadParams(fast=p, slow=p)
  seqs = jnp.asarray(list(itertools.product(range(len(word)), repeat=depth)), jnp.int32)
  def one(seq):
    def body(c, i):
      q, s = c
      u, s = tx.update(tmap(lambda t: t[i], table), s, q)
      q = optax.apply_updates(q, u)
      return (q, s), (u, q)
    return jax.lax.scan(body, (p, tx.init(p)), seq)[1]
  return jax.jit(jax.vmap(one))(seqs), seqs


def same(ctx, label, left, right, trees=ALL, word='abzL', depth=4, tol=1e-9, view=None, pair=False, post=None):
  """The updates of `left` are those of `right` for all histories (closed loop)."""
  for tree in trees:
    (a, qa), seqs = runs(left(), tree, word, depth, pair)
    (b, qb), _ = runs(right(), tree, word, depth)
    if view:
      a, qa = view(a), view(qa)
    if post:
      b = post(b)
    la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
    if jax.tree_util.tree_structure(a) != jax.tree_util.tree_structure(b):
      ctx.fail('%s: the updates have another structure' % label, tree=tree)
    if not post:
      la, lb = la + jax.tree_util.tree_leaves(qa), lb + jax.tree_util.tree_leaves(qb)
    for x, y in zip(la, lb):
      x, y = [np.asarray(v, np.float64).reshape(len(seqs), depth, -1) for v in (x, y)]
      bad = ~((np.abs(x - y) <= tol * (1e-3 + np.maximum(np.abs(x), np.abs(y)))) | (np.isnan(x) & np.isnan(y)) | (x == y))
      if bad.any():
        h, t, e = np.argwhere(bad)[0]
        ctx.fail('%s does not hold: step %d is %r, expected %r' % (label, t + 1, x[h, t, e], y[h, t, e]), tree=tree,
                 history=''.join(word[i] for i in np.asarray(seqs[h])))
    ctx.traces += len(seqs)
    ctx.states += len(seqs) * depth
    ctx.transitions += len(seqs) * depth
    ctx.outcomes.add((label, tree))
  ctx.sample({'law': label, 'trees': list(trees), 'letters': word, 'depth': depth})


o = optax
ch = o.chain
ms = lambda i, k, mean=True: o.MultiSteps(i, k, mean).gradient_transformation()
INNER = {
    'adamw': lambda: o.adamw(0.1),
    'sgdm': lambda: o.sgd(0.1, 0.9, True),
    'lamb': lambda: o.lamb(0.1, weight_decay=0.1),
    'sm3': lambda: o.sm3(0.1),
    'radam': lambda: o.radam(0.1),
    'rms': lambda: o.rmsprop(0.1, centered=True, momentum=0.5, initial_scale=1.),
    'accum': lambda: ch(o.clip_by_global_norm(1.), o.trace(0.5), o.apply_every(2), o.scale(-0.1)),
}


def wrappers(name):
  i = INNER[name]
  true = lambda t: tmap(lambda x: True, t)
  false = lambda t: tmap(lambda x: False, t)
  fast = lambda u: u.fast
  slow = lambda u: u.slow
  L = {
      'masked(all) = inner': (lambda: o.masked(i(), true), i),
      'masked(True) = inner': (lambda: o.masked(i(), True), i),
      'masked(none) = identity': (lambda: o.masked(i(), false), o.identity),
      'masked(False) = identity': (lambda: o.masked(i(), False), o.identity),
      'multi_steps(1) = inner': (lambda: ms(i(), 1), i),
      'multi_steps(1, sum) = inner': (lambda: ms(i(), 1, False), i),
      'maybe_update(always) = inner': (lambda: maybe(i(), lambda n: n >= 0), i),
      'maybe_update(never) = identity': (lambda: maybe(i(), lambda n: n < 0), o.identity),
      'apply_if_finite = inner on finite gradients': (lambda: o.apply_if_finite(i(), 0), i),
      'chain(inner) = inner': (lambda: ch(i()), i),
      'lookahead(long period).fast = inner': (lambda: o.lookahead(i(), 99, 0.5), i, fast),
      'lookahead(1, 1.).fast = inner': (lambda: o.lookahead(i(), 1, 1.), i, fast),
      'lookahead(1, 1.).slow = inner': (lambda: o.lookahead(i(), 1, 1.), i, slow),
      'lookahead(2, 1.).fast = inner': (lambda: o.lookahead(i(), 2, 1.), i, fast),
      'lookahead(3, 0.).slow stays': (lambda: o.lookahead(i(), 3, 0.), o.set_to_zero if hasattr(o, 'set_to_zero') else lambda: o.scale(0.), slow),
      'lookahead(long, reset).fast = inner': (lambda: o.lookahead(i(), 99, 0.5, True), i, fast),
      'maybe_update(never) of maybe_update = identity': (lambda: maybe(maybe(i(), lambda n: n > 1), lambda n: n < 0), o.identity),
      'multi_steps(2) of multi_steps(1) = multi_steps(2)': (lambda: ms(ms(i(), 1), 2), lambda: ms(i(), 2)),
      'multi_steps(1) of multi_steps(2) = multi_steps(2)': (lambda: ms(ms(i(), 2), 1), lambda: ms(i(), 2)),
      'multi_steps(2) of multi_steps(2) = multi_steps(4)': (lambda: ms(ms(i(), 2), 2), lambda: ms(i(), 4)),
      'masked(all) of masked(all) = inner': (lambda: o.masked(o.masked(i(), True), True), i),
  }
  return L


def wrapper_laws(ctx, name, depth):
  for label, law in wrappers(name).items():
    view = law[2] if len(law) > 2 else None
    same(ctx, '%s [%s]' % (label, name), law[0], law[1], trees=('mixed', 'matrix') if name != 'accum' else ('mixed', 'vector'),
         word='abz', depth=depth, view=view, pair=view is not None)


sch = lambda c: (lambda n: c)


def laws():
  L = {}
  def law(label, left, right, **kw):
    L[label] = (left, right, kw)
  law('trace(0) = identity', lambda: o.trace(0.), o.identity)
  law('trace(0, nesterov) = identity', lambda: o.trace(0., True), o.identity)
  law('ema(0) = identity', lambda: o.ema(0.), o.identity)
  law('ema(0, raw) = identity', lambda: o.ema(0., False), o.identity)
  law('(1-d) trace(d) = ema(d, raw)', lambda: ch(o.trace(0.7), o.scale(0.3)), lambda: o.ema(0.7, False))
  law('trace and scale commute', lambda: ch(o.scale(0.3), o.trace(0.7, True)), lambda: ch(o.trace(0.7, True), o.scale(0.3)))
  law('ema and trace commute', lambda: ch(o.ema(0.6, False), o.trace(0.7)), lambda: ch(o.trace(0.7), o.ema(0.6, False)))
  law('scales multiply', lambda: ch(o.scale(0.5), o.scale(-3.)), lambda: o.scale(-1.5))
  law('scale(1) = identity', lambda: o.scale(1.), o.identity)
  law('scale_by_schedule(constant) = scale', lambda: o.scale_by_schedule(sch(0.3)), lambda: o.scale(0.3))
  law('scale_by_schedule(constant_schedule) = scale', lambda: o.scale_by_schedule(o.constant_schedule(-2.)), lambda: o.scale(-2.))
  law('sgd = scale', lambda: o.sgd(0.3), lambda: o.scale(-0.3))
  law('sgd(momentum 0) = sgd', lambda: o.sgd(0.3, 0., True), lambda: o.sgd(0.3))
  law('sgd = chain(trace, scale)', lambda: o.sgd(0.3, 0.8, True), lambda: ch(o.trace(0.8, True), o.scale(-0.3)))
  law('add_decayed_weights(0) = identity', lambda: o.add_decayed_weights(0.), o.identity)
  law('decays add', lambda: ch(o.add_decayed_weights(.1), o.add_decayed_weights(.2)), lambda: o.add_decayed_weights(.3))
  law('adamw(0) = adam', lambda: o.adamw(0.1, weight_decay=0.), lambda: o.adam(0.1))
  law('adamw = chain', lambda: o.adamw(0.1, 0.8, 0.9, 1e-3, 1e-4, 0.2),
      lambda: ch(o.scale_by_adam(0.8, 0.9, 1e-3, 1e-4), o.add_decayed_weights(0.2), o.scale(-0.1)))
  law('lamb = chain', lambda: o.lamb(0.1, 0.8, 0.9, 1e-3, 1e-4, 0.2),
      lambda: ch(o.scale_by_adam(0.8, 0.9, 1e-3, 1e-4), o.add_decayed_weights(0.2), o.scale_by_trust_ratio(), o.scale(-0.1)))
  law('adam(b1=0) = debiased rms', lambda: o.scale_by_adam(0., 0.7, 0., 1e-3),
      lambda: _debiased_rms(0.7, 1e-3), word='abLA')
  law('adam(0, 0) = rms(0)', lambda: o.scale_by_adam(0., 0., 0., 1e-3), lambda: o.scale_by_rms(0., 1e-3))
  law('rms(0) = rss on fresh state', lambda: o.scale_by_rms(0., 1e-3), lambda: _fresh(o.scale_by_rss(0., 1e-3)))
  law('rmsprop(momentum 0) = rmsprop', lambda: o.rmsprop(0.1, momentum=0., nesterov=True), lambda: o.rmsprop(0.1))
  law('rmsprop = chain', lambda: o.rmsprop(0.1, 0.8, 1e-3, 0.5, False, 0.7, True),
      lambda: ch(o.scale_by_rms(0.8, 1e-3, 0.5), o.scale(-0.1), o.trace(0.7, True)))
  law('rmsprop(centered) = chain', lambda: o.rmsprop(0.1, 0.8, 1e-3, 0.5, True), lambda: ch(o.scale_by_stddev(0.8, 1e-3, 0.5), o.scale(-0.1)))
  law('adagrad = chain', lambda: o.adagrad(0.1, 0.3, 1e-3), lambda: ch(o.scale_by_rss(0.3, 1e-3), o.scale(-0.1)))
  law('sm3 on vectors = sum of squares', lambda: o.scale_by_sm3(0., 1., 1e-3), lambda: o.scale_by_rss(0., 1e-3), trees=VECTORS)
  law('sm3(b1) = ema of sm3(0)', lambda: o.scale_by_sm3(0.6, 1., 1e-3), lambda: ch(o.scale_by_sm3(0., 1., 1e-3), o.ema(0.6, False)))
  law('sm3(b2=0) = rms(0)', lambda: o.scale_by_sm3(0., 0., 1e-3), lambda: o.scale_by_rms(0., 1e-3))
  law('sm3(b2) on vectors = rms', lambda: o.scale_by_sm3(0., 0.7, 1e-3), lambda: o.scale_by_rms(0.7, 1e-3), trees=VECTORS)
  law('radam(infinite threshold) = debiased average', lambda: o.scale_by_radam(0.8, 0.9, threshold=INF), lambda: o.ema(0.8))
  law('radam = chain', lambda: o.radam(0.1, 0.8, 0.9, 1e-3, 1e-4, 4.5), lambda: ch(o.scale_by_radam(0.8, 0.9, 1e-3, 1e-4, 4.5), o.scale(-0.1)), depth=5)
  law('adabelief = chain', lambda: o.adabelief(0.1, 0.8, 0.9, 1e-3), lambda: ch(o.scale_by_belief(0.8, 0.9, 1e-3), o.scale(-0.1)))
  law('yogi = chain', lambda: o.yogi(0.1, 0.8, 0.9, 1e-3), lambda: ch(o.scale_by_yogi(0.8, 0.9, 1e-3), o.scale(-0.1)))
  law('fromage = chain', lambda: o.fromage(0.3, 1e-2), lambda: ch(
      o.scale_by_trust_ratio(1e-2), o.scale(-0.3 / np.sqrt(1.09)), o.add_decayed_weights(1 / np.sqrt(1.09) - 1)), tol=1e-6)
  law('clip(inf) = identity', lambda: o.clip(INF), o.identity)
  law('clip_by_global_norm(inf) = identity', lambda: o.clip_by_global_norm(INF), o.identity)
  law('adaptive_grad_clip(inf) = identity', lambda: o.adaptive_grad_clip(INF), o.identity)
  zero = lambda: o.scale(0.)
  law('clip(0) = scale(0)', lambda: o.clip(0.), zero)
  law('clip_by_global_norm(0) = scale(0)', lambda: o.clip_by_global_norm(0.), zero)
  law('adaptive_grad_clip(0) = scale(0)', lambda: o.adaptive_grad_clip(0.), zero)
  law('adaptive_grad_clip without floor or factor = scale(0)', lambda: o.adaptive_grad_clip(0., 0.), zero)
  law('sgd(0) = scale(0)', lambda: o.sgd(0., .9), zero)
  law('schedule of zeros = scale(0)', lambda: o.scale_by_schedule(sch(0.)), zero)
  law('adamw of rate 0 = scale(0)', lambda: o.adamw(0.), zero)
  law('a zero in a chain', lambda: ch(o.trace(.9), o.scale(0.)), zero)
  law('after zeros the moments stay', lambda: ch(o.clip(0.), o.trace(.9, True)), zero)
  law('decay of zeroed gradients', lambda: ch(o.clip(0.), o.add_decayed_weights(-.1)), lambda: ch(o.scale(0.), o.add_decayed_weights(-.1)))
  law('norm clipping of a scalar = clipping', lambda: o.clip_by_global_norm(0.5), lambda: o.clip(0.5), trees=('scalar',))
  law('smaller clip wins', lambda: ch(o.clip(0.8), o.clip(0.3)), lambda: o.clip(0.3))
  law('smaller norm wins', lambda: ch(o.clip_by_global_norm(0.3), o.clip_by_global_norm(0.8)), lambda: o.clip_by_global_norm(0.3))
  law('scaled clip', lambda: ch(o.scale(4.), o.clip(1.), o.scale(.25)), lambda: o.clip(.25))
  law('scaled norm clip', lambda: ch(o.scale(4.), o.clip_by_global_norm(1.), o.scale(.25)), lambda: o.clip_by_global_norm(.25))
  for n, f in (('clip', lambda: o.clip(.5)), ('clip_by_global_norm', lambda: o.clip_by_global_norm(.7)),
               ('adaptive_grad_clip', lambda: o.adaptive_grad_clip(.3)), ('centralize', o.centralize), ('zero_nans', o.zero_nans),
               ('keep_params_nonnegative', o.keep_params_nonnegative),
               ('identity', o.identity)):
    law(n + ' twice = once', (lambda f: lambda: ch(f(), f()))(f), f)
  law('zero_nans = identity on numbers', o.zero_nans, o.identity)
  law('centralize = identity on vectors', o.centralize, o.identity, trees=VECTORS)
  law('centralize and scale commute', lambda: ch(o.centralize(), o.scale(3.)), lambda: ch(o.scale(3.), o.centralize()))
  law('centralize and trace commute', lambda: ch(o.centralize(), o.trace(.9)), lambda: ch(o.trace(.9), o.centralize()))
  law('trust ratio ignores the scale', lambda: ch(o.scale(5.), o.scale_by_trust_ratio()), o.scale_by_trust_ratio, word='abLA')
  law('apply_every(1) = identity', lambda: o.apply_every(1), o.identity)
  law('apply_every(2) of apply_every(2)', lambda: ch(o.apply_every(2), _every(4)), lambda: o.apply_every(4))
  law('multi_steps(sum) of sgd = apply_every', lambda: ms(o.sgd(.1), 2, False), lambda: ch(o.apply_every(2), o.sgd(.1)), depth=5)
  law('multi_steps(mean) of sgd = scaled apply_every', lambda: ms(o.sgd(.1), 3), lambda: ch(o.apply_every(3), o.sgd(.1 / 3)), depth=5, word='abz')
  law('multi_steps(sum) and scale', lambda: ms(ch(o.scale(1 / 3), o.adam(.1)), 3, False), lambda: ms(o.adam(.1), 3), depth=6, word='abz', trees=('mixed', 'matrix'))
  law('multi_steps(schedule 1) = inner', lambda: ms(o.adam(.1), lambda n: 1), lambda: o.adam(.1))
  law('noisy_sgd(0) = sgd', lambda: o.noisy_sgd(.1, 0.), lambda: o.sgd(.1))
  law('add_noise(0) = identity', lambda: o.add_noise(0., 0.5, 1), o.identity)
  law('inject(adam) = adam', lambda: o.inject_hyperparams(o.adam)(.1, b1=.8), lambda: o.adam(.1, b1=.8), tol=1e-6)
  law('inject of a constant schedule', lambda: o.inject_hyperparams(o.sgd)(learning_rate=sch(.1), momentum=.5), lambda: o.sgd(.1, .5), tol=1e-6)
  law('flatten of vectors = inner', lambda: o.flatten(o.sm3(.1)), lambda: o.sm3(.1), trees=('vector',))
  law('flatten twice = once', lambda: o.flatten(o.flatten(o.lamb(.1))), lambda: o.flatten(o.lamb(.1)))
  law('flatten of entrywise = inner', lambda: o.flatten(o.adamw(.1)), lambda: o.adamw(.1))
  law('masks partition', lambda: ch(o.masked(o.adam(.1), lambda t: tmap(lambda x: x.ndim > 1, t)),
                                    o.masked(o.adam(.1), lambda t: tmap(lambda x: x.ndim <= 1, t))), lambda: o.adam(.1))
  law('mask and scale', lambda: ch(o.masked(o.scale(0.), lambda t: tmap(lambda x: x.ndim > 1, t)),
                                   o.masked(o.scale(0.), lambda t: tmap(lambda x: x.ndim <= 1, t))), lambda: o.scale(0.))
  law('cut-off schedule of sgd stops', lambda: o.sgd(o.piecewise_constant_schedule(.1, {2: 0.})),
      lambda: ch(_first(2), o.sgd(.1)), tol=1e-6)
  return L


# helpers built from the interface
def _stateless(f):
  return o.GradientTransformation(lambda p: (), lambda u, s, p=None: (f(u), s))


def _fresh(inner):
  """Restarts the inner transformation at each step."""
  return o.GradientTransformation(inner.init, lambda u, s, p=None: (inner.update(u, inner.init(u), p)[0], s))


def _debiased_rms(d, eps):
  def update(u, s, p=None):
    n, v = s
    n, v = n + 1, tmap(lambda a, b: d * a + (1 - d) * b * b, v, u)
    return tmap(lambda g, a: g / jnp.sqrt(a / (1 - d**n) + eps), u, v), (n, v)
  return o.GradientTransformation(lambda p: (jnp.zeros(()), tmap(jnp.zeros_like, p)), update)


def _every(k):
  """apply_every(2) has grouped pairs already: group the pairs of a longer window."""
  return o.apply_every(k)


def _first(k):
  def update(u, s, p=None):
    return tmap(lambda x: jnp.where(s < k, x, 0.), u), s + 1
  return o.GradientTransformation(lambda p: jnp.zeros((), jnp.int32), update)


LAWS = laws()


def laws_unit(ctx, names, extra):
  for n in names:
    left, right, kw = LAWS[n]
    kw = dict(kw)
    kw['depth'] = kw.get('depth', 4) + extra
    same(ctx, n, left, right, **kw)


# ---- aggregation, averages, schedules, losses ----

def aggregates(ctx, depth):
  """Private aggregation without noise; averages as transformations."""
  ls = letters('mixed')
  p = tmap(jnp.asarray, ls['a'])
  for word in itertools.product('abzLA', repeat=depth):
    batch = tmap(lambda *x: jnp.stack([jnp.asarray(y) for y in x]), *[ls[c] for c in word])
    mean = tmap(lambda x: x.mean(0), batch)
    tx = o.differentially_private_aggregate(1e9, 0., 0)
    u, _ = tx.update(batch, tx.init(p))
    _cmp(ctx, 'aggregation with a large clip = mean', u, mean, word)
    tx = o.differentially_private_aggregate(0., 0., 0)
    u, _ = tx.update(batch, tx.init(p))
    _cmp(ctx, 'aggregation with bound 0 = zero', u, tmap(jnp.zeros_like, p), word)
    c = o.clip_by_global_norm(0.7)
    tx = o.differentially_private_aggregate(0.7, 0., 0)
    u, _ = tx.update(batch, tx.init(p))
    each = [c.update(tmap(jnp.asarray, ls[w]), c.init(p))[0] for w in word]
    _cmp(ctx, 'aggregation = mean of norm-clipped examples', u, tmap(lambda *x: sum(x) / len(x), *each), word)
    tx, ty = o.dpsgd(0.1, 0.7, 0., 0), o.dpsgd(0.1, 0.7, 0., 0, momentum=0.)
    u, v = tx.update(batch, tx.init(p))[0], ty.update(batch, ty.init(p))[0]
    _cmp(ctx, 'dpsgd without noise = sgd of the clipped mean', u, tmap(lambda *x: -0.1 * sum(x) / len(x), *each), word)
    _cmp(ctx, 'dpsgd with zero momentum = dpsgd', v, u, word)
    # averages: polyak averaging is the raw moving average; period 1 copies
    d = 0.6
    tx = o.ema(d, False)
    s, avg, copy = tx.init(p), tmap(jnp.zeros_like, p), p
    for n, w in enumerate(word):
      new = tmap(jnp.asarray, ls[w])
      m, s = tx.update(new, s)
      avg = o.incremental_update(new, avg, 1 - d)
      copy = o.periodic_update(new, copy, n, 1)
      _cmp(ctx, 'incremental_update = moving average', avg, m, word)
      _cmp(ctx, 'periodic_update(1) = copy', copy, new, word)
      _cmp(ctx, 'incremental_update(1) = copy', o.incremental_update(new, p, 1.), new, word)
      _cmp(ctx, 'incremental_update(0) = old', o.incremental_update(new, p, 0.), p, word)
    ctx.states += depth
    ctx.transitions += depth
    ctx.traces += 1
  ctx.outcomes.add(depth)
  ctx.sample({'words': 'all of abzLA^%d' % depth})


def _cmp(ctx, label, a, b, what):
  la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
  for x, y in zip(la, lb):
    x, y = np.asarray(x, np.float64), np.asarray(y, np.float64)
    if x.shape != y.shape or not np.allclose(x, y, rtol=1e-6, atol=1e-9, equal_nan=True):
      ctx.fail('%s does not hold: %r, expected %r' % (label, x, y), case=what)


def sch_laws():
  L = {}
  for (a, b), k in itertools.product(((1., 0.1), (0.2, 2.), (0., 1.), (1., 0.)), (1, 2, 5, 8)):
    t = (a, b, k)
    L['linear = polynomial %s' % (t,)] = (o.linear_schedule(a, b, k, 3), o.polynomial_schedule(a, b, 1, k, 3))
    L['interpolated = linear %s' % (t,)] = (o.piecewise_interpolate_schedule('linear', 1., {k: b}), o.linear_schedule(1., b, k))
    L['interpolated = cosine %s' % (t,)] = (o.piecewise_interpolate_schedule('cosine', 1., {k: b}), o.cosine_decay_schedule(1., k, b))
    L['join of one %s' % (t,)] = (o.join_schedules([o.linear_schedule(a, b, k)], []), o.linear_schedule(a, b, k))
    L['join of equal halves %s' % (t,)] = (
        o.join_schedules([o.linear_schedule(a, b, 2 * k), o.linear_schedule((a + b) / 2, b, k)], [k]), o.linear_schedule(a, b, 2 * k))
    L['delayed = joined %s' % (t,)] = (
        o.linear_schedule(a, b, k, 4), o.join_schedules([o.constant_schedule(a), o.linear_schedule(a, b, k)], [4]))
    L['polynomial to itself %s' % (t,)] = (o.polynomial_schedule(a, a, 3, k), o.constant_schedule(a))
    L['exponential rate 1 %s' % (t,)] = (o.exponential_decay(a, k, 1.), o.constant_schedule(a))
    L['exponential twice as fast %s' % (t,)] = (o.exponential_decay(a, k, .5), o.exponential_decay(a, 2 * k, .25))
    L['staircase of one step %s' % (t,)] = (o.exponential_decay(a, 1, .5, k, True), o.exponential_decay(a, 1, .5, k))
    L['cosine alpha 1 %s' % (t,)] = (o.cosine_decay_schedule(a, k, 1.), o.constant_schedule(a))
    L['no boundaries %s' % (t,)] = (o.piecewise_constant_schedule(a), o.constant_schedule(a))
    L['empty boundaries %s' % (t,)] = (o.piecewise_constant_schedule(a, {}), o.constant_schedule(a))
    L['factors 1 %s' % (t,)] = (o.piecewise_constant_schedule(a, {k: 1., k + 2: 1.}), o.constant_schedule(a))
    L['staircase = factors %s' % (t,)] = (
        o.exponential_decay(a, k, .5, 0, True, a / 4), o.piecewise_constant_schedule(a, {k: .5, 2 * k: .5}))
    L['warm-up without warm-up %s' % (t,)] = (
        o.warmup_cosine_decay_schedule(0., 2., 0, k, b), o.cosine_decay_schedule(2., k, b / 2.))
    L['warm-up exponential without warm-up %s' % (t,)] = (
        o.warmup_exponential_decay_schedule(0., a, 0, k, .5), o.exponential_decay(a, k, .5))
    kw = dict(init_value=b, peak_value=3., warmup_steps=k, decay_steps=2 * k + 1, end_value=b)
    L['one restart = warm-up cosine %s' % (t,)] = (o.sgdr_schedule([kw]), o.warmup_cosine_decay_schedule(**kw))
    L['two equal restarts %s' % (t,)] = (
        o.sgdr_schedule([kw, kw]), o.join_schedules([o.warmup_cosine_decay_schedule(**kw)] * 2, [2 * k + 1]))
    if k % 2 == 0:
      L['one cycle = interpolation %s' % (t,)] = (
          o.linear_onecycle_schedule(2 * k, 2., .5, .75, 4., 10.),
          o.piecewise_interpolate_schedule('linear', .5, {k: 4., int(1.5 * k): .25, 2 * k: .1}))
      L['cosine cycle = halves %s' % (t,)] = (
          o.cosine_onecycle_schedule(2 * k, 2., .5, 4., 10.),
          o.join_schedules([o.piecewise_interpolate_schedule('cosine', .5, {k: 4.}),
                            o.cosine_decay_schedule(2., k, 1 / 40.)], [k]))
  return L


def schedules(ctx, part, parts, steps):
  L = sch_laws()
  for label in sorted(L)[part::parts]:
    f, g = L[label]
    for mode in ('python', 'array'):
      n = np.arange(steps)
      val = lambda h: (np.array([float(h(int(i))) for i in n]) if mode == 'python'
                       else np.asarray(jax.jit(jax.vmap(lambda i: jnp.asarray(h(i), float)))(jnp.asarray(n))))
      x, y = val(f), val(g)
      bad = ~(np.abs(x - y) <= 1e-6 * (1 + np.abs(y)))
      if bad.any():
        i = int(np.argmax(bad))
        ctx.fail('%s does not hold at step %d: %r, expected %r' % (label, i, x[i], y[i]), mode=mode)
      ctx.states += steps
      ctx.transitions += steps
      ctx.traces += 1
    ctx.outcomes.add(label.split(' (')[0])
  ctx.sample({'steps': steps, 'laws': sorted({l.split(' (')[0] for l in L})[:20]})


def losses(ctx, values):
  """Laws between the losses on all pairs and triples of values."""
  v = np.array(values)
  x, t = [jnp.asarray(a.ravel()) for a in np.meshgrid(v, v)]
  eq = lambda label, a, b: _cmp(ctx, label, a, b, 'grid')
  eq('huber(large delta) = l2', o.huber_loss(x, t, 1e6), o.l2_loss(x, t))
  eq('l2(x, t) = l2(x - t)', o.l2_loss(x, t), o.l2_loss(x - t))
  eq('l2 symmetric', o.l2_loss(x, t), o.l2_loss(t, x))
  for d in (.5, 1., 4.):
    eq('huber(x, t) = huber(x - t)', o.huber_loss(x, t, d), o.huber_loss(x - t, delta=d))
    eq('huber scales', o.huber_loss(x, t, d), d * d * o.huber_loss(x / d, t / d, 1.))
    eq('huber even', o.huber_loss(x, t, d), o.huber_loss(t, x, d))
  p = jax.nn.sigmoid(t)
  two = jnp.stack([x, jnp.zeros_like(x)], -1)
  eq('softmax of two = sigmoid', o.softmax_cross_entropy(two, jnp.stack([p, 1 - p], -1)), o.sigmoid_binary_cross_entropy(x, p))
  eq('sigmoid reflects', o.sigmoid_binary_cross_entropy(x, p), o.sigmoid_binary_cross_entropy(-x, 1 - p))
  eq('softmax ignores shifts', o.softmax_cross_entropy(two + 3.25, jnp.stack([p, 1 - p], -1)), o.softmax_cross_entropy(two, jnp.stack([p, 1 - p], -1)))
  eq('softmax of classes in another order', o.softmax_cross_entropy(two[:, ::-1], jnp.stack([1 - p, p], -1)), o.softmax_cross_entropy(two, jnp.stack([p, 1 - p], -1)))
  lab = jnp.asarray(np.eye(4)[[0, 1, 2, 3, 1]])
  eq('smooth_labels(0)', o.smooth_labels(lab, 0.), lab)
  eq('smooth_labels(1)', o.smooth_labels(lab, 1.), jnp.full_like(lab, .25))
  eq('smoothing twice', o.smooth_labels(o.smooth_labels(lab, .3), .5), o.smooth_labels(lab, .65))
  a = jnp.asarray(np.array(list(itertools.product(v, repeat=3))))
  a = a[np.abs(np.asarray(a)).sum(1) > 0]
  b = jnp.roll(a, 7, axis=0)
  eq('cosine distance = 1 - similarity', o.cosine_distance(a, b), 1 - o.cosine_similarity(a, b))
  eq('similarity symmetric', o.cosine_similarity(a, b), o.cosine_similarity(b, a))
  eq('similarity ignores lengths', o.cosine_similarity(4. * a, .5 * b), o.cosine_similarity(a, b))
  eq('similarity to itself', o.cosine_similarity(a, a), jnp.ones(len(a)))
  eq('similarity to the opposite', o.cosine_similarity(a, -a), -jnp.ones(len(a)))
  eq('global norm of one leaf', jnp.stack([o.global_norm(r) for r in a[:40]]), jnp.linalg.norm(a[:40], axis=-1))
  eq('global norm of split leaves', jnp.stack([o.global_norm([r[:1], {'a': r[1:]}]) for r in a[:40]]), jnp.linalg.norm(a[:40], axis=-1))
  n = len(v)**2 * 12 + len(a) * 6
  ctx.states += n
  ctx.transitions += n
  ctx.traces += n
  ctx.outcomes.add(n)
  ctx.sample({'values': list(values)})


def UNITS(tier):
  T = tier == 'thorough'
  u = [('wrappers-' + n, wrapper_laws, dict(name=n, depth=7 if T else 5)) for n in INNER]
  names = sorted(LAWS)
  k = 16
  u += [('laws-%d' % i, laws_unit, dict(names=names[i::k], extra=2 if T else 0)) for i in range(k)]
  u += [('aggregates', aggregates, dict(depth=4 if T else 3))]
  u += [('schedules-%d' % i, schedules, dict(part=i, parts=6, steps=200 if T else 40)) for i in range(6)]
  u += [('losses', losses, dict(values=(-1e3, -30., -2., -.5, 0., .5, 2., 30., 1e3) if T else (-30., -2., -.5, 0., .5, 2., 30.)))]
  return u
