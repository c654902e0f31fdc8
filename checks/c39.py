"""C39: numeric arguments and arrays may come in any representation."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax
from optax._src import wrappers

from mc import catalog
from mc.trees import Tree, grads, leaves_of, close, worst

ASSUMPTIONS = ['hyper-parameter values other than the listed dyadic ones behave like those',
               'gradient values outside the alphabet behave like those in it']

# name -> factory, numeric hyper-parameters with two values each, traits (see mc/catalog.py)
F = {
    'scale': (optax.scale, dict(step_size=(.5, -2.)), ''),
    'trace': (optax.trace, dict(decay=(.5, 1.)), ''),
    'trace_nesterov': (lambda **k: optax.trace(nesterov=True, **k), dict(decay=(.5, 0.)), ''),
    'ema': (optax.ema, dict(decay=(.5, .75)), ''),
    'scale_by_rss': (optax.scale_by_rss, dict(initial_accumulator_value=(.5, 1.), eps=(.25, 1.)), ''),
    'scale_by_rms': (optax.scale_by_rms, dict(decay=(.5, .75), eps=(.25, 1.), initial_scale=(.5, 1.)), ''),
    'scale_by_stddev': (optax.scale_by_stddev, dict(decay=(.5, .75), eps=(.25, 1.), initial_scale=(.5, 1.)), ''),
    'scale_by_adam': (optax.scale_by_adam, dict(b1=(.5, 0.), b2=(.75, .5), eps=(.25, 1.), eps_root=(.5, 0.)), ''),
    'scale_by_belief': (optax.scale_by_belief, dict(b1=(.5, 0.), b2=(.75, .5), eps=(.25, 1.), eps_root=(.5, 1.)), ''),
    'scale_by_yogi': (optax.scale_by_yogi, dict(b1=(.5, 0.), b2=(.75, .5), eps=(.25, 1.), eps_root=(.5, 0.),
                                                initial_accumulator_value=(.5, 1.)), ''),
    'scale_by_radam': (optax.scale_by_radam, dict(b1=(.5, 0.), b2=(.75, .875), eps=(.25, 1.), eps_root=(.5, 0.), threshold=(2.5, 4.5)), ''),
    'add_decayed_weights': (optax.add_decayed_weights, dict(weight_decay=(.5, 2.)), ''),
    'scale_by_trust_ratio': (optax.scale_by_trust_ratio, dict(min_norm=(.5, 4.)), ''),
    'add_noise': (optax.add_noise, dict(eta=(.5, 2.), gamma=(.5, 1.), seed=(3, 4)), ''),
    'apply_every': (optax.apply_every, dict(k=(2, 3)), ''),
    'scale_by_sm3': (optax.scale_by_sm3, dict(b1=(.5, 0.), b2=(.75, 1.), eps=(.25, 1.)), ''),
    'clip': (optax.clip, dict(max_delta=(.5, 1.)), ''),
    'clip_by_global_norm': (optax.clip_by_global_norm, dict(max_norm=(.5, 4.)), ''),
    'adaptive_grad_clip': (optax.adaptive_grad_clip, dict(clipping=(.5, 2.), eps=(.25, 4.)), ''),
    'dp_aggregate': (optax.differentially_private_aggregate, dict(l2_norm_clip=(.5, 2.), noise_multiplier=(.5, 0.), seed=(3, 4)), 'g'),
    'adabelief': (optax.adabelief, dict(learning_rate=(.5, 1.), b1=(.5, 0.), b2=(.75, .5), eps=(.25, 1.)), ''),
    'adagrad': (optax.adagrad, dict(learning_rate=(.5, 1.), initial_accumulator_value=(.5, 1.), eps=(.25, 1.)), ''),
    'adam': (optax.adam, dict(learning_rate=(.5, 1.), b1=(.5, 0.), b2=(.75, .5), eps=(.25, 1.), eps_root=(.5, 0.)), ''),
    'adamw': (optax.adamw, dict(learning_rate=(.5, 1.), b1=(.5, 0.), b2=(.75, .5), eps=(.25, 1.), eps_root=(.5, 0.), weight_decay=(.5, 1.)), ''),
    'fromage': (optax.fromage, dict(learning_rate=(.5, 1.), min_norm=(.25, 4.)), ''),
    'lamb': (optax.lamb, dict(learning_rate=(.5, 1.), b1=(.5, 0.), b2=(.75, .5), eps=(.25, 1.), eps_root=(.5, 0.), weight_decay=(.5, 0.)), ''),
    'noisy_sgd': (optax.noisy_sgd, dict(learning_rate=(.5, 1.), eta=(.5, 2.), gamma=(.5, 1.), seed=(3, 4)), ''),
    'radam': (optax.radam, dict(learning_rate=(.5, 1.), b1=(.5, 0.), b2=(.75, .875), eps=(.25, 1.), eps_root=(.5, 0.), threshold=(2.5, 4.5)), ''),
    'rmsprop': (optax.rmsprop, dict(learning_rate=(.5, 1.), decay=(.5, .75), eps=(.25, 1.), initial_scale=(.5, 1.), momentum=(.5, 0.)), ''),
    'rmsprop_centered': (lambda **k: optax.rmsprop(centered=True, nesterov=True, **k),
                         dict(learning_rate=(.5, 1.), decay=(.5, .75), eps=(.25, 1.), initial_scale=(1., 2.), momentum=(.5, 0.)), ''),
    'sgd': (optax.sgd, dict(learning_rate=(.5, 1.), momentum=(.5, 0.)), ''),
    'sm3': (optax.sm3, dict(learning_rate=(.5, 1.), momentum=(.5, 0.)), ''),
    'yogi': (optax.yogi, dict(learning_rate=(.5, 1.), b1=(.5, 0.), b2=(.75, .5), eps=(.25, 1.)), ''),
    'dpsgd': (optax.dpsgd, dict(learning_rate=(.5, 1.), l2_norm_clip=(.5, 2.), noise_multiplier=(.5, 0.), seed=(3, 4), momentum=(.5, 0.)), 'g'),
    'apply_if_finite': (lambda **k: optax.apply_if_finite(optax.sgd(.5, .5), **k), dict(max_consecutive_errors=(1, 2)), ''),
    'lookahead': (lambda **k: optax.lookahead(optax.sgd(.5, .5), 2, **k), dict(slow_step_size=(.5, 1.)), 'k'),
}


def reps(v, scalars=False):
  """Concrete representations of one value; numbers of steps are never arrays."""
  integral = float(v).is_integer()
  out = {'a NumPy float64' if not isinstance(v, int) else 'a NumPy int64': np.float64(v) if not isinstance(v, int) else np.int64(v),
         'a NumPy single': np.float32(v) if not isinstance(v, int) else np.int32(v),
         'a NumPy 0-d array': np.asarray(v), 'a jax array': jnp.asarray(v),
         'a single precision jax array': jnp.asarray(v, jnp.float32 if not isinstance(v, int) else jnp.int32)}
  if integral and not isinstance(v, int):
    out['a Python int'] = int(v)
    out['a NumPy int32'] = np.int32(v)
    out['an integer jax array'] = jnp.asarray(int(v))
  return {k: x for k, x in out.items() if not (scalars and 'array' in k)}


def inputs(tree, kind, letters, dtype=None):
  t = Tree(tree)
  def gr(ls):
    if 'g' in kind:
      ls = [np.stack([x, -0.5 * x, 2. * x]) for x in ls]
    return t.build(ls, dtype)
  p = t.build(t.vals(9, 0.8), dtype)
  if 'k' in kind:
    p = optax.LookaheadParams(fast=p, slow=jax.tree_util.tree_map(lambda x: 0.5 * x, p))
  return p, {x: gr(g) for x, g in grads(t, letters)}


def stack(ts):
  return jax.tree_util.tree_map(lambda *x: jnp.stack(x), *ts)


def hyper(ctx, names, tree, letters, depth, rtol, only=None):
  """One hyper-parameter at a time in every representation; all histories."""
  for name in names:
    f, hps, kind = F[name]
    p, gs = inputs(tree, kind, letters)
    hists = list(itertools.product(letters, repeat=depth))
    batch = stack([stack([gs[x] for x in h]) for h in hists])
    def run(kw, gseqs):
      tx = f(**kw)
      def one(gseq):
        # unrolled: the state of an integer array may be of another integer type
        s, out = tx.init(p), []
        for i in range(depth):
          u, s = tx.update(jax.tree_util.tree_map(lambda x: x[i], gseq), s, p)
          out.append(u)
        return out
      return jax.vmap(one)(gseqs)
    base = {k: v[0] for k, v in hps.items()}
    jrun = lambda kw: leaves_of(run(kw, batch))
    def compare(what, got, ref, h, v):
      ctx.transitions += len(hists) * depth
      ctx.traces += len(hists)
      if not close(got, ref, rtol, rtol * 1e-2):
        ctx.fail('%s: %s=%r given as %s gives other updates than as a Python number: %s' % (
            name, h, v, what, worst(got, ref)))
    for h, vs in hps.items():
      ref = {}
      for v in vs:
        ref[v] = jrun({**base, h: v})
        ctx.states += len(hists) * depth
        for what, r in reps(v).items():
          compare(what, jrun({**base, h: r}), ref[v], h, v)
      # traced by compilation, for both values with one compiled function
      jf = jax.jit(lambda x, g: run({**base, h: x}, g))
      for v in vs:
        compare('a traced value', leaves_of(jf(v, batch)), ref[v], h, v)
      # a batch of values
      vf = jax.jit(jax.vmap(lambda x, g: run({**base, h: x}, g), in_axes=(0, None)))
      out = vf(jnp.asarray(vs), batch)
      for i, v in enumerate(vs):
        compare('one of a batch of values', leaves_of(jax.tree_util.tree_map(lambda x: x[i], out)), ref[v], h, v)
      ctx.outcomes.add((name, h))
    # all at once, traced
    keys = list(hps)
    jf = jax.jit(lambda xs, g: run(dict(zip(keys, xs)), g))
    compare('traced, like all the others,', leaves_of(jf([hps[k][0] for k in keys], batch)), jrun(base), 'everything', base)
    ctx.sample({'factory': name, 'hyper-parameters': keys, 'histories': len(hists)})


def to_numpy(x):
  return jax.tree_util.tree_map(lambda l: np.array(l), x)


def arrays(ctx, names, tree, letters, depth, rtol=1e-9):
  """Gradients, parameters and states as NumPy arrays, in any mixture, eager and compiled."""
  for name in names:
    t = Tree(tree)
    sy = catalog.Sys(name, t)
    if sy.skip():
      continue
    tx = catalog.make(name)
    p = sy.params()
    gs = {x: sy.grad(g) for x, g in grads(t, letters)}
    conv = {'numpy': to_numpy, 'jax': lambda x: x}
    s0 = tx.init(p)
    sn = tx.init(to_numpy(p))
    if not close(leaves_of(s0), leaves_of(sn), rtol, 1e-12):
      ctx.fail('%s: init of NumPy parameters differs: %s' % (name, worst(leaves_of(s0), leaves_of(sn))))
    jstep = jax.jit(tx.update)
    stackl = [(s0, ())]
    while stackl:
      s, h = stackl.pop()
      ctx.states += 1
      for x, g in gs.items():
        u, s1 = jstep(g, s, p)
        ref = leaves_of((u, s1))
        hh = h + (x,)
        for mix in itertools.product(conv, repeat=3):
          a = [conv[m](v) for m, v in zip(mix, (g, s, p))]
          for mode, f in (('', tx.update), ('compiled ', jstep)):
            if mode and mix != ('numpy',) * 3:
              continue
            got = f(*a)
            ctx.transitions += 1
            if not close(leaves_of(got), ref, rtol, 1e-12):
              ctx.fail('%s: a %supdate with gradients, state, parameters as %s differs: %s' % (
                  name, mode, mix, worst(leaves_of(got), ref)), history=hh)
            if not jax.tree_util.tree_structure(got[1]) == jax.tree_util.tree_structure(s1):
              ctx.fail('%s: another state structure for %s' % (name, mix), history=hh)
        if len(hh) < depth:
          stackl.append((s1, hh))
        else:
          ctx.traces += 1
    ctx.outcomes.add((name, tree))
    ctx.sample({'transformation': name, 'tree': tree, 'depth': depth})


SCHED = {
    'constant': (optax.constant_schedule, dict(value=.5), ()),
    'polynomial': (optax.polynomial_schedule, dict(init_value=2., end_value=.5, power=2., transition_steps=4, transition_begin=2), ('init_value', 'end_value', 'power')),
    'linear': (optax.linear_schedule, dict(init_value=2., end_value=.5, transition_steps=4, transition_begin=2), ('init_value', 'end_value')),
    'piecewise': (lambda init_value, s1, s2: optax.piecewise_constant_schedule(init_value, {3: s1, 6: s2}), dict(init_value=2., s1=.5, s2=2.), ('init_value',)),
    'exponential': (optax.exponential_decay, dict(init_value=2., transition_steps=4, decay_rate=.5, transition_begin=2, end_value=.25), ('init_value', 'end_value')),
    'exponential stairs': (lambda **k: optax.exponential_decay(staircase=True, **k), dict(init_value=2., transition_steps=4, decay_rate=2., transition_begin=2, end_value=8.), ('init_value', 'end_value')),
    'cosine': (optax.cosine_decay_schedule, dict(init_value=2., decay_steps=8, alpha=.25), ('init_value', 'alpha')),
    'interpolate': (lambda kind, init_value, s1, s2: optax.piecewise_interpolate_schedule('linear', init_value, {3: s1, 6: s2}), dict(kind=1, init_value=2., s1=.5, s2=2.), ('init_value',)),
    'linear one-cycle': (optax.linear_onecycle_schedule, dict(transition_steps=16, peak_value=2., pct_start=.25, pct_final=.75, div_factor=4., final_div_factor=8.), ('peak_value',)),
    'cosine one-cycle': (optax.cosine_onecycle_schedule, dict(transition_steps=16, peak_value=2., pct_start=.25, div_factor=4., final_div_factor=8.), ('peak_value',)),
    'warm-up cosine': (optax.warmup_cosine_decay_schedule, dict(init_value=0., peak_value=2., warmup_steps=4, decay_steps=12, end_value=.5), ('init_value', 'peak_value', 'end_value')),
    'warm-up exponential': (optax.warmup_exponential_decay_schedule, dict(init_value=0., peak_value=2., warmup_steps=4, transition_steps=4, decay_rate=.5, transition_begin=2, end_value=.25), ('init_value', 'peak_value', 'end_value')),
    'restarts': (lambda **k: optax.sgdr_schedule([k, k]), dict(init_value=0., peak_value=2., warmup_steps=4, decay_steps=12, end_value=.5), ('init_value', 'peak_value', 'end_value')),
}


def schedules(ctx, name, steps, rtol):
  """Schedules built from other representations of their numbers."""
  f, kw, traced = SCHED[name]
  ev = lambda g: np.array([float(g(n)) for n in range(steps)])
  ref = ev(f(**kw))
  def compare(what, got, h):
    ctx.transitions += steps
    ctx.traces += 1
    if not close([got], [ref], rtol, rtol):
      ctx.fail('%s schedule: %s given as %s gives other values than as a Python number: %s' % (name, h, what, worst([got], [ref])))
  for h, v in kw.items():
    for what, r in reps(v, 'steps' in h or 'begin' in h).items():
      compare(what, ev(f(**{**kw, h: r})), h)
      # as a traced step
      compare(what, np.asarray(jax.vmap(f(**{**kw, h: r}))(jnp.arange(steps))) * np.ones(steps), h)
    ctx.states += steps
    ctx.outcomes.add((name, h))
  for h in traced:
    jf = jax.jit(lambda x, n: f(**{**kw, h: x})(n))
    compare('a traced value', np.array([float(jf(kw[h], n)) for n in range(steps)]), h)
    compare('one of a batch', np.array([float(jax.vmap(lambda x: f(**{**kw, h: x})(n) * jnp.ones([]))(jnp.asarray([kw[h] + 1., kw[h]]))[1])
                                        for n in range(steps)]), h)
  ctx.sample({'schedule': name, 'steps': steps})


def inject(ctx, names, tree, depth):
  """Injected hyper-parameters (arrays, traced inside a compiled update)."""
  for name in names:
    f, hps, kind = F[name]
    if f.__name__ == '<lambda>':
      continue
    letters = 'ab'
    p, gs = inputs(tree, kind, letters)
    base = {k: v[0] for k, v in hps.items()}
    plain = f(**base)
    static = [k for k in ('momentum',) if k in hps and name not in ('sgd', 'rmsprop', 'sm3', 'dpsgd')]
    tx = optax.inject_hyperparams(f, static_args=static)(**base)
    js, jp = jax.jit(tx.update), jax.jit(plain.update)
    st = [(tx.init(p), plain.init(p), ())]
    while st:
      a, b, h = st.pop()
      ctx.states += 1
      for x in letters:
        u, a1 = js(gs[x], a, p)
        v, b1 = jp(gs[x], b, p)
        ctx.transitions += 1
        if not close(leaves_of(u), leaves_of(v), 1e-6, 1e-9):
          ctx.fail('%s with injected hyper-parameters, compiled: %s' % (name, worst(leaves_of(u), leaves_of(v))), history=h + (x,))
        if len(h) + 1 < depth:
          st.append((a1, b1, h + (x,)))
        else:
          ctx.traces += 1
    ctx.outcomes.add((name, 'inject'))
    ctx.sample({'injected': name, 'depth': depth})


def UNITS(tier):
  T = tier == 'thorough'
  u = []
  for n in F:
    u.append(('hyper-%s' % n, hyper, dict(names=[n], tree='dict', letters='abz' if not T else 'abzcd', depth=3, rtol=1e-6)))
    if T:
      u.append(('hyper32-%s' % n, hyper, dict(names=[n], tree='nest', letters='ab', depth=3, rtol=1e-4, x64=False)))
  for n in catalog.CATALOG:
    u.append(('arrays-%s' % n, arrays, dict(names=[n], tree='dict', letters='ab' if not T else 'abz', depth=2 if not T else 3)))
  for n in SCHED:
    u.append(('sched-%s' % n.replace(' ', '_'), schedules, dict(name=n, steps=20 if not T else 40, rtol=1e-6)))
  names = list(F)
  for i in range(8):
    u.append(('inject-%d' % i, inject, dict(names=names[i::8], tree='dict', depth=3)))
  return u
