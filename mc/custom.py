"""Transformations as users write them: any pytree may be the state.

The k-th update multiplies the gradients by k (bool: by 2 and 1 in turn).
"""
import functools

import jax
import jax.numpy as jnp
import numpy as np
import optax

I = lambda n: jnp.asarray(n, jnp.int32)
# name -> (state of a count, count of a state)
STATES = {
    'array': (I, lambda s: s),
    'float': (lambda n: jnp.asarray(n, jnp.float32), lambda s: s),
    'vector': (lambda n: jnp.full((2,), n, jnp.int32), lambda s: s[0]),
    'row': (lambda n: jnp.full((1,), n, jnp.float32), lambda s: s[0]),
    'dict': (lambda n: {'n': I(n)}, lambda s: s['n']),
    'list': (lambda n: [I(n)], lambda s: s[0]),
    'tuple': (lambda n: (I(n),), lambda s: s[0]),
    'deep': (lambda n: {'a': (None, [I(n)]), 'b': {}, 'c': ()}, lambda s: s['a'][1][0]),
    'bool': (lambda n: jnp.asarray(n % 2 == 1), lambda s: jnp.where(s, 1, 0)),
    'unit': (lambda n: (), lambda s: 0),
    'none': (lambda n: None, lambda s: 0),
    'nodict': (lambda n: {}, lambda s: 0),
}
# states that only make sense outside compiled code
EAGER = {
    'python': (int, lambda s: s),
    'pyfloat': (float, lambda s: s),
    'numpy': (lambda n: np.asarray(n), lambda s: s),
    'numpy-row': (lambda n: np.full((1,), n), lambda s: s[0]),
}
ALLSTATES = {**STATES, **EAGER}


def make(kind):
  to, of = ALLSTATES[kind]
  def update(g, s, params=None):
    n = of(s)
    return jax.tree_util.tree_map(lambda x: x * (n + 1), g), to(n + 1)
  return optax.GradientTransformation(lambda p: to(0), update)


def factor(kind, n):
  """What the (n+1)-th update multiplies by."""
  return 1 if kind in ('unit', 'none', 'nodict') else n % 2 + 1 if kind == 'bool' else n + 1


def count(kind, s):
  return int(ALLSTATES[kind][1](s))


class Callable:
  """A function as an object."""

  def __init__(self, f):
    self.f = f

  def __call__(self, *args):
    return self.f(*args)

  def method(self, *args):
    return self.f(*args)

  @classmethod
  def of(cls, f):
    return type('Sub', (cls,), {'g': staticmethod(f)})


def forms(f, jit=True):
  """The kinds of object a function may be given as."""
  out = {'function': f, 'lambda': lambda *a: f(*a), 'partial': functools.partial(f), 'object': Callable(f),
         'method': Callable(f).method, 'static': Callable.of(f).g}
  out['wraps'] = functools.wraps(f)(Callable(f))
  if jit:
    out['jitted'] = jax.jit(f)
  return out


def same_in_every_form(ctx, label, f, make, steps=4, jit=True, tree='pair'):
  """make(form of f) is the same transformation for every form."""
  from mc.trees import Tree, close, leaves_of, worst
  t = Tree(tree)
  p = t.build(t.vals(9))
  ref = None
  for form, x in forms(f, jit).items():
    tx = make(x)
    s, out = tx.init(p), []
    for i in range(steps):
      u, s = tx.update(t.build(t.vals(i)), s, p)
      out += [np.asarray(y, np.float64) for y in leaves_of((u, s))]
      ctx.transitions += 1
    ref = ref or out
    if not close(out, ref, 1e-6, 1e-9):
      ctx.fail('%s: another result for a callable given as %s: %s' % (label, form, worst(out, ref)))
    ctx.states += 1
    ctx.traces += 1
