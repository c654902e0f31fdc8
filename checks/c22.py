"""C22: inject_hyperparams acts like rebuilding the inner transformation each step."""
import functools
import inspect
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc import custom
from mc import models as m
from mc.explore import Spec, canon, canon_sut
from mc.trees import LARGE, ALL, Tree, grads, close, leaves_of, worst
from mc.wrap import val

ASSUMPTIONS = ['schedules and values outside the lists behave like those in them',
               'double precision reference within rtol 1e-9']

# (factory, model factory, {hyper-parameter: values}, static keyword arguments)
FACTORIES = {
    'scale': (optax.scale, lambda step_size: m.Scale(step_size), {'step_size': (0.5, 2.)}, {}),
    'sgd': (optax.sgd, m.sgd, {'learning_rate': (0.1, 0.7), 'momentum': (0.9, 0.2)}, {'nesterov': True}),
    'sgd1': (optax.sgd, m.sgd, {'learning_rate': (0.1, 0.7)}, {}),
    'trace': (optax.trace, lambda decay, nesterov=False: m.Trace(decay, nesterov), {'decay': (0.9, 0.3)},
              {'nesterov': False}),
    'ema': (optax.ema, lambda decay, debias=True: m.Ema(decay, debias), {'decay': (0.9, 0.3)}, {'debias': True}),
    'adam': (optax.adam, m.adam, {'learning_rate': (0.1, 0.02), 'b1': (0.9, 0.3), 'b2': (0.99, 0.6),
                                  'eps': (1e-3, 0.1)}, {}),
    'by_adam': (optax.scale_by_adam, m.Adam, {'b1': (0.9, 0.3), 'b2': (0.99, 0.6), 'eps': (1e-3, 0.1),
                                              'eps_root': (0., 0.2)}, {}),
    'adamw': (optax.adamw, m.adamw, {'learning_rate': (0.1, 0.02), 'weight_decay': (0.3, 0.01)}, {}),
    'decay': (optax.add_decayed_weights, lambda weight_decay: m.Decay(weight_decay),
              {'weight_decay': (0.3, 0.01)}, {}),
    'rms': (optax.scale_by_rms, m.Rms, {'decay': (0.9, 0.4), 'eps': (1e-3, 0.1)}, {}),
    'rmsprop': (optax.rmsprop, m.rmsprop, {'learning_rate': (0.1, 0.3), 'decay': (0.9, 0.4), 'momentum': (0.5, 0.1)},
                {'centered': True, 'nesterov': True}),
    'clip': (optax.clip, lambda max_delta: m.Clip(max_delta), {'max_delta': (0.5, 1.5)}, {}),
    'clipnorm': (optax.clip_by_global_norm, lambda max_norm: m.ClipNorm(max_norm), {'max_norm': (0.5, 10.)}, {}),
    'agc': (optax.adaptive_grad_clip, m.Agc, {'clipping': (0.1, 2.), 'eps': (1e-3, 1.)}, {}),
    'trust': (optax.scale_by_trust_ratio, m.TrustRatio, {'min_norm': (0.1, 3.)}, {}),
    'lamb': (optax.lamb, m.lamb, {'learning_rate': (0.1, 0.02), 'weight_decay': (0.3, 0.01)}, {}),
    'belief': (optax.adabelief, m.adabelief, {'learning_rate': (0.1, 0.5), 'b1': (0.9, 0.3)}, {}),
    'radam': (optax.scale_by_radam, m.Radam, {'b1': (0.9, 0.3), 'threshold': (5., 4.5)}, {'b2': 0.7}),
    'adagrad': (optax.adagrad, m.adagrad, {'learning_rate': (0.1, 0.5), 'initial_accumulator_value': (0.1, 2.)}, {}),
}


def schedules():
  """Real schedule (traced integer) and its model."""
  return {
      'lin': (lambda lo, hi: (lambda n: lo + (hi - lo) * jnp.minimum(n, 4) / 4.,
                              lambda n: lo + (hi - lo) * min(n, 4) / 4.)),
      'alt': (lambda lo, hi: (lambda n: jnp.where(n % 2 == 0, lo, hi), lambda n: lo if n % 2 == 0 else hi)),
      'optax': (lambda lo, hi: (optax.piecewise_constant_schedule(lo, {2: hi / lo} if lo else {}),
                                lambda n: (hi if n >= 2 else lo) if lo else lo)),
  }


def build(name, kinds, extra_static=()):
  """kinds: hyper-parameter -> 'const' | schedule name."""
  factory, model_factory, hps, static = FACTORIES[name]
  kwargs, consts, scheds = dict(static), {}, {}
  for k, (lo, hi) in hps.items():
    if kinds.get(k, 'const') == 'const':
      kwargs[k] = lo
      consts[k] = lo
    else:
      kwargs[k], scheds[k] = schedules()[kinds[k]](lo, hi)
  tx = optax.inject_hyperparams(factory)(**kwargs)
  # Numeric defaults that the factory has are reported as well.
  mstat = {k: v for k, v in static.items()}
  return tx, m.Inject(lambda **kw: model_factory(**mstat, **kw), consts, scheds)


def edit(s, mm, key, value, scheduled):
  """Changes a reported value; `hyperparams` of old states stay as they were."""
  hp = dict(s.hyperparams)
  hp[key] = jnp.asarray(value, hp[key].dtype)
  m2 = dict(mm)
  if not scheduled:
    m2['hp'] = {**mm['hp'], key: value}
  return s._replace(hyperparams=hp), m2


def compare_state(s, mm, tol=1e-9):
  if val(s.count) != mm['count']:
    return 'reported %s updates, expected %s' % (val(s.count), mm['count'])
  for k, v in mm['hp'].items():
    if k not in s.hyperparams:
      return 'no reported value for %s' % k
    if abs(val(s.hyperparams[k]) - v) > tol * max(1, abs(v)):
      return 'reported %s = %r, expected %r' % (k, val(s.hyperparams[k]), v)


def run(ctx, name, kinds, tree, letters, depth, edits=True, mode='jit', rtol=1e-9, atol=1e-12, count=None,
        merge=True):
  tx, model = build(name, kinds)
  t = Tree(tree)
  hps = FACTORIES[name][2]
  label = 'inject(%s, %s)' % (name, kinds)
  step = jax.jit(tx.update) if mode == 'jit' else tx.update
  p = t.vals(9, 0.8)
  pt = t.build(p)
  gs = [(x, g, t.build(g)) for x, g in grads(t, letters)]
  acts = [('', None, None, None)]
  if edits:
    for k, (lo, hi) in hps.items():
      acts.append(('%s:=%s ' % (k, hi), k, hi, kinds.get(k, 'const') != 'const'))
  s0, m0 = tx.init(pt), model.init(p)
  if count is not None:
    s0 = s0._replace(count=jnp.asarray(count, jnp.int32))
    m0 = {**m0, 'count': count}
  ctx.states += 1
  msg = compare_state(s0, m0, max(rtol, 1e-9))
  if msg:
    ctx.fail('%s after init: %s' % (label, msg))
  stack = [(s0, m0, ())]
  seen = {}
  while stack:
    s, mm, hist = stack.pop()
    for en, ek, ev, es in acts:
      if ek is not None:
        if ek not in s.hyperparams:
          ctx.fail('%s: %s is not in the reported hyperparams' % (label, ek))
        se, me = edit(s, mm, ek, ev, es)
      else:
        se, me = s, mm
      for x, g, gt in gs:
        h = hist + (en + x,)
        ut, s1 = step(gt, se, pt)
        um, m1 = model.update(g, me, p if model.needs_params else None)
        ctx.transitions += 1
        u = leaves_of(ut)
        if not close(u, um, rtol, atol):
          ctx.fail('%s: update %d differs: %s' % (label, len(h), worst(u, um)), history=h, got=u, expected=um)
        msg = compare_state(s1, m1, max(rtol, 1e-9))
        if msg:
          ctx.fail('%s after %s: %s' % (label, h, msg), history=h)
        if len(h) >= depth:
          ctx.traces += 1
          ctx.outcomes.add(canon([np.round(v, 6) for v in u])[-48:])
          ctx.sample({'system': label, 'history': list(h)})
          continue
        key = canon_sut(s1) + b'#' + canon(m1)
        if merge and seen.get(key, 0) >= depth - len(h):
          continue
        seen[key] = depth - len(h)
        ctx.states += 1
        stack.append((s1, m1, h))


def all_kinds(name, styles):
  hps = list(FACTORIES[name][2])
  for combo in itertools.product(('const',) + styles, repeat=len(hps)):
    yield dict(zip(hps, combo))


def runs(ctx, name, kinds_list, **kw):
  for kinds in kinds_list:
    run(ctx, name, kinds, **kw)


def counts(ctx, name, kinds, ns):
  for n in ns:
    run(ctx, name, kinds, 'scalar', 'a', 2, edits=False, count=n, mode='eager')


def static_args(ctx):
  """Callables, strings and booleans declared static reach the factory untouched."""
  got = []

  def factory(fn, lr, flag, txt, other=3.0):
    got.append((fn, flag, txt))
    return optax.chain(optax.scale(fn(2.) * lr), optax.scale(other if flag else 1.))
  f = lambda x: x + 1.
  ps = jnp.ones(2)
  for static in ('fn', ['fn'], ('fn', 'txt'), {'fn', 'flag'}):
    for flag in (True, False):
      for lr in (0.5, lambda n: 0.5 + n):
        for call in (lambda **k: k, None):
          got.clear()
          w = optax.inject_hyperparams(factory, static_args=static)
          tx = w(f, lr, flag, 'abc') if call is None else w(fn=f, lr=lr, flag=flag, txt='abc')
          s = tx.init(ps)
          for n in (1, 2, 3):
            u, s = tx.update(jnp.ones(2), s, ps)
            ctx.transitions += 1
            e = 3. * (lr(n) if callable(lr) else lr) * (3. if flag else 1.)
            if not np.allclose(u, e, rtol=1e-9):
              ctx.fail('static arguments %s, flag %s: update %s, expected %s' % (static, flag, u, e))
          if any(g[0] is not f or g[1] is not flag or g[2] != 'abc' for g in got):
            ctx.fail('static arguments were changed: %s' % got[:2])
          if set(s.hyperparams) != {'lr', 'other'}:
            ctx.fail('reported hyperparams are %s' % sorted(s.hyperparams))
          ctx.traces += 1
          ctx.states += 3
  try:
    optax.inject_hyperparams(factory, static_args='nope')
  except ValueError:
    pass
  else:
    ctx.fail('an unknown static argument was accepted')
  # A schedule argument that must stay a callable.
  tx = optax.inject_hyperparams(optax.scale_by_schedule, static_args='step_size_fn')(lambda n: 1. + n)
  s = tx.init(ps)
  for n in range(4):
    u, s = tx.update(jnp.ones(2), s)
    if not np.allclose(u, 1. + n):
      ctx.fail('scale_by_schedule with a static schedule gave %s at %d' % (u, n))
  ctx.traces += 1


def independent(ctx):
  """States do not share their reported values: editing one leaves others alone."""
  tx = optax.inject_hyperparams(optax.adam)(learning_rate=0.1, b1=lambda n: 0.5 + 0. * n)
  ps = jnp.ones(2)
  a = tx.init(ps)
  b = tx.init(ps)
  _, a1 = tx.update(ps, a, ps)
  for s, others in ((a, (b, a1)), (a1, (a, b)), (b, (a, a1))):
    before = [canon_sut(o) for o in others]
    s.hyperparams['learning_rate'] = jnp.asarray(7.)
    s.hyperparams['b1'] = jnp.asarray(3.)
    for o, x in zip(others, before):
      if canon_sut(o) != x:
        ctx.fail('editing the values of one state changed another')
    ctx.transitions += 1
  c = tx.init(ps)
  if val(c.hyperparams['learning_rate']) != 0.1:
    ctx.fail('editing a state changed later initial states')
  ctx.traces += 1
  ctx.states += 4


REPS = {
    'int': int, 'float': float, 'float16': np.float16, 'float32': np.float32, 'float64': np.float64, 'int32': np.int32, 'int64': np.int64,
    'array': lambda v: np.array(v), 'float array': lambda v: np.array(v, np.float64), 'jax': jnp.asarray,
    'jax float': lambda v: jnp.asarray(v, jnp.float64), 'jax int': lambda v: jnp.asarray(v, jnp.int32),
}
NUMERIC = {
    'scale': (optax.scale, dict(step_size=2)), 'sgd': (optax.sgd, dict(learning_rate=2, momentum=1)), 'trace': (optax.trace, dict(decay=1)),
    'adamw': (optax.adamw, dict(learning_rate=2, eps=1, weight_decay=3)), 'clip': (optax.clip, dict(max_delta=1)),
    'clipnorm': (optax.clip_by_global_norm, dict(max_norm=2)), 'adagrad': (optax.adagrad, dict(learning_rate=1, eps=1)),
    'rmsprop': (optax.rmsprop, dict(learning_rate=1, initial_scale=2, momentum=1)), 'lamb': (optax.lamb, dict(learning_rate=2, weight_decay=1)),
    'trust': (optax.scale_by_trust_ratio, dict(min_norm=1)), 'ema': (optax.ema, dict(decay=0)),
}


def numeric(ctx, name, depth=3):
  """Numbers of any representation are reported, and edits of them take effect."""
  factory, hps = NUMERIC[name]
  t = Tree('pair')
  pt = t.build(t.vals(9, 0.8))
  gs = {x: t.build(g) for x, g in grads(t, 'ab')}
  for rep, conv in REPS.items():
    tx = optax.inject_hyperparams(factory)(**{k: conv(v) for k, v in hps.items()})
    step = jax.jit(tx.update)
    s0 = tx.init(pt)
    if not set(hps) <= set(s0.hyperparams):
      ctx.fail('%s: numbers given as %s are not reported: %s' % (name, rep, sorted(set(hps) - set(s0.hyperparams))))
    ref = {}
    for word in itertools.product(['a', 'b'] + ['%s+1 a' % k for k in hps], repeat=depth):
      s, vals, inner = s0, dict(hps), s0.inner_state
      for w in word:
        if '+1' in w:
          k = w.split('+1')[0]
          vals[k] += 1
          s = s._replace(hyperparams={**s.hyperparams, k: jnp.asarray(vals[k], s.hyperparams[k].dtype)})
        g = gs[w[-1]]
        u, s = step(g, s, pt)
        key = tuple(sorted(vals.items()))
        if key not in ref:
          ref[key] = jax.jit(factory(**{k: float(v) for k, v in vals.items()}).update)
        e, inner = ref[key](g, inner, pt)
        ctx.transitions += 1
        bad = {k: val(s.hyperparams[k]) for k, v in vals.items() if val(s.hyperparams[k]) != v}
        if bad:
          ctx.fail('%s, numbers given as %s: reported values are %s' % (name, rep, bad), history=word)
        if not close(leaves_of(u), leaves_of(e), 1e-6, 1e-9):
          ctx.fail('%s, numbers given as %s: %s' % (name, rep, worst(leaves_of(u), leaves_of(e))), history=word)
      ctx.traces += 1
      ctx.states += depth
    ctx.outcomes.add((name, rep))
  ctx.sample({'factory': name, 'representations': list(REPS)})


def defaults(ctx, name, depth=2):
  """Numeric defaults of the factory are reported too, and can be edited; other defaults are not."""
  factory, given = ALL_DEFAULTS[name]
  t = Tree('pair')
  pt = t.build(t.vals(9, 0.8))
  gs = {x: t.build(g) for x, g in grads(t, 'ab')}
  sig = inspect.signature(factory).parameters
  number = lambda v: isinstance(v, (int, float)) and not isinstance(v, bool)
  nums = {k: q.default for k, q in sig.items() if number(q.default) and k not in given}
  tx = optax.inject_hyperparams(factory)(**given)
  s0 = tx.init(pt)
  if set(s0.hyperparams) != set(nums) | set(given):
    ctx.fail('%s: reported hyper-parameters are %s' % (name, sorted(s0.hyperparams)))
  step = jax.jit(tx.update)
  for k, v in nums.items():
    w = 0.5 * v if v else 0.25
    if k == 'seed':
      continue
    inner, s = s0.inner_state, s0
    s = s._replace(hyperparams={**s.hyperparams, k: jnp.asarray(w, s.hyperparams[k].dtype)})
    w = val(s.hyperparams[k])
    f = jax.jit(factory(**given, **{k: w}).update)
    for x in 'ab'[:depth] + 'a':
      u, s = step(gs[x], s, pt)
      e, inner = f(gs[x], inner, pt)
      ctx.transitions += 1
      if not close(leaves_of(u), leaves_of(e), 1e-6, 1e-9):
        ctx.fail('%s with %s changed to %s: %s' % (name, k, w, worst(leaves_of(u), leaves_of(e))))
      if abs(val(s.hyperparams[k]) - w) > 1e-12:
        ctx.fail('%s: %s is reported as %s, not %s' % (name, k, val(s.hyperparams[k]), w))
    ctx.traces += 1
    ctx.states += 3
  ctx.outcomes.add((name, len(nums)))


LR = dict(learning_rate=0.5)
ALL_DEFAULTS = {n: (getattr(optax, n), g) for n, g in (
    ('adam', LR), ('adamw', LR), ('adabelief', LR), ('adagrad', LR), ('lamb', LR), ('radam', LR), ('rmsprop', LR), ('yogi', LR), ('sm3', LR),
    ('fromage', LR), ('scale_by_adam', {}), ('scale_by_belief', {}), ('scale_by_rms', {}), ('scale_by_stddev', {}), ('scale_by_rss', {}),
    ('scale_by_radam', {}), ('scale_by_sm3', {}), ('scale_by_yogi', {}), ('scale_by_trust_ratio', {}), ('adaptive_grad_clip', dict(clipping=0.1)))}


SPIKES = tuple(range(0, 70)) + (96, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 500, 999, 1000, 1001, 1023, 1024, 2000)


def spikes(ctx, kind, at):
  """A schedule that differs at one single step, or only from that step on, takes effect exactly there."""
  g = jnp.ones((2,))
  for j in at:
    for shape in ('spike', 'step'):
      f = (lambda n: jnp.where(n == j, 3., 1.)) if shape == 'spike' else (lambda n: jnp.where(n >= j, 3., 1.))
      if kind == 'inject':
        tx, first = optax.inject_hyperparams(optax.scale)(step_size=f), 1
      elif kind == 'inject-sgd':
        tx, first = optax.inject_hyperparams(optax.sgd)(learning_rate=f), 1
      elif kind == 'schedule':
        tx, first = optax.scale_by_schedule(f), 0
      else:
        tx, first = optax.sgd(f), 0
      u = np.asarray(jax.jit(lambda: jax.lax.scan(
          lambda s, _: tx.update(g, s)[::-1], tx.init(g), None, length=j + 3)[1])())[:, 0]
      n = np.arange(first, first + j + 3)
      want = np.where(n == j if shape == 'spike' else n >= j, 3., 1.) * (-1 if 'sgd' in kind else 1)
      ctx.transitions += j + 3
      ctx.states += j + 3
      ctx.traces += 1
      if not np.allclose(u, want, rtol=1e-6):
        i = int(np.argmax(~np.isclose(u, want, rtol=1e-6)))
        ctx.fail('%s with a schedule that is 1 and 3 %s step %d: update %d is scaled by %s instead of %s' % (
            kind, 'at' if shape == 'spike' else 'from', j, i + 1, u[i], want[i]))


def callables(ctx):
  """Schedules and factories may be any callable."""
  for name, key in (('scale', 'step_size'), ('sgd1', 'learning_rate'), ('trace', 'decay'), ('adam', 'b1')):
    factory, _, hps, static = FACTORIES[name]
    rest = {k: v[0] for k, v in hps.items() if k != key}
    custom.same_in_every_form(ctx, 'injected %s' % name, lambda n: 0.9 / (1. + n),
                              lambda f: optax.inject_hyperparams(factory)(**static, **rest, **{key: f}))
  class Factory:
    def __call__(self, step_size):
      return optax.scale(step_size)
    def method(self, step_size):
      return optax.scale(step_size)
    @staticmethod
    def static(step_size):
      return optax.scale(step_size)
  t = Tree('pair')
  for f in (lambda n: 0.9 / (1. + n), 0.3):
    ref = None
    for form, fac in (('function', optax.scale), ('lambda', lambda step_size: optax.scale(step_size)), ('object', Factory()),
                      ('method', Factory().method), ('static', Factory.static), ('partial', functools.partial(optax.scale))):
      tx = optax.inject_hyperparams(fac)(f)
      s, out = tx.init(t.build(t.vals(1))), []
      for i in range(3):
        u, s = tx.update(t.build(t.vals(i)), s)
        out += [np.asarray(x, np.float64) for x in leaves_of((u, s))]
        ctx.transitions += 1
      ref = ref or out
      if not close(out, ref, 1e-6, 1e-9):
        ctx.fail('inject_hyperparams of a factory given as %s: %s' % (form, worst(out, ref)))
      ctx.states += 1
      ctx.traces += 1


def UNITS(tier):
  T = tier == 'thorough'
  u = [('static', static_args, {}), ('independent', independent, {})]
  u.append(('callables', callables, {}))
  for kind in ('inject', 'inject-sgd'):
    for i in range(2):
      u.append(('spikes-%s-%d' % (kind, i), spikes, dict(kind=kind, at=SPIKES[i::2])))
  for name in FACTORIES:
    ks = list(all_kinds(name, ('lin', 'alt') if T else ('lin',)))
    if not T and len(ks) > 8:
      ks = ks[::3] + ks[-1:]
    for i in range(2):
      if ks[i::2]:
        u.append(('edits-%s-%d' % (name, i), runs, dict(
            name=name, kinds_list=ks[i::2], tree='dict', letters='ab', depth=(4 if T else 3) if len(FACTORIES[name][2]) < 3 else 2)))
    alt = list(all_kinds(name, ('alt', 'optax')))
    u.append(('deep-' + name, runs, dict(name=name, kinds_list=alt[-2:] + alt[:1], tree='nest', letters='az',
                                         depth=8 if T else 7, edits=False)))
    u.append(('counts-' + name, counts, dict(name=name, kinds=alt[-1], ns=(0, 1, 5, 1000, 2**31 - 3, 2**31 - 2, 2**31 - 1))))
  for name in ('sgd', 'adam', 'adamw', 'clipnorm'):
    u.append(('eager-' + name, runs, dict(name=name, kinds_list=list(all_kinds(name, ('lin',)))[-2:], tree='dict',
                                          letters='ab', depth=2, mode='eager')))
    u.append(('x32-' + name, runs, dict(name=name, kinds_list=list(all_kinds(name, ()))[:1], tree='dict', letters='ab',
                                        depth=3, rtol=1e-4, atol=1e-5, edits=False, x64=False)))
  for name in NUMERIC:
    u.append(('numeric-' + name, numeric, dict(name=name, depth=3 if T else 2)))
  for name in ALL_DEFAULTS:
    u.append(('defaults-' + name, defaults, dict(name=name)))
  for tree in ALL:
    u.append(('tree-' + tree, runs, dict(name='adamw', kinds_list=[{'learning_rate': 'alt'}], tree=tree, letters='ab',
                                         depth=3)))
  for tree in LARGE:
    u.append(('tree-' + tree, runs, dict(name='adamw', kinds_list=[{'learning_rate': 'alt'}], tree=tree, letters='a', depth=2)))
  return u
