"""Finite alphabets of parameter/gradient trees.

A tree is handled as its list of numpy leaves (in tree-flatten order) plus the
structure needed to rebuild it for the code under test.
"""
import collections
import math

import jax
import numpy as np

NT = collections.namedtuple('NT', ['x', 'y'])


def _a(*shape):
  return np.zeros(shape)


@jax.tree_util.register_pytree_node_class
class Box:
  """A user-defined container."""

  def __init__(self, left, right, tag='t'):
    self.left, self.right, self.tag = left, right, tag

  def tree_flatten(self):
    return (self.left, self.right), self.tag

  @classmethod
  def tree_unflatten(cls, tag, xs):
    return cls(*xs, tag)


# name -> template (leaves are numpy arrays that only give the shape)
MENU = {
    'scalar': _a(),
    'vec': _a(3),
    'one': [_a(1)],
    'dict': {'w': _a(2, 3), 'b': _a(3)},
    'nest': {'a': [_a(), _a(2)], 'b': (NT(x=_a(1, 2), y=None), {}),
             'c': {'z': _a(0), 'y': _a(2, 1, 2)}},
    'ranks': [_a(), _a(2), _a(2, 3), _a(2, 3, 2), _a(2, 1, 2, 2)],
    'rank5': (_a(1, 2, 1, 2, 2), _a(2)),
    'many': tuple(_a(*s) for s in
                  [(2,), (), (3,), (1,), (2, 2), (1, 3), (), (2,), (1,), (3, 1), (2,)]),
    'big': {'k': _a(33, 9), 'b': _a(130)},
    'pair': (_a(2), _a(2)),
    'empty': {'a': _a(0, 3), 'b': _a(2), 'c': [_a(0), _a()], 'd': _a(3, 0), 'e': _a(2, 2)},
    'custom': collections.OrderedDict([('z', _a(2)), ('m', Box(_a(2, 2), [Box(_a(), None, 'u')])), ('a', _a(3))]),
    'deep': {'l0': {'l1': [{'l2': (_a(2), {'l3': _a()})}]}, 'l9': _a(2)},
}
SMALL = ('scalar', 'dict', 'nest')
ALL = tuple(MENU)
# Trees for particular checks: the same structure with other ranks.
# Many entries and many leaves, for short histories.
LARGE = ('huge', 'leafy')
MENU['huge'] = {'k': _a(96, 80), 'b': _a(4100), 'e': _a(5, 3, 7, 11)}
MENU['leafy'] = [_a(*[(2,), (), (1, 2)][i % 3]) for i in range(70)]
MENU['mv'] = {'w': _a(2, 2), 'v': _a(2)}
MENU['vm'] = {'w': _a(2), 'v': _a(2, 2)}


class Tree:
  """A tree structure with shapes."""

  def __init__(self, name, template=None):
    self.name = name
    template = MENU[name] if template is None else template
    leaves, self.treedef = jax.tree_util.tree_flatten(template)
    self.shapes = [l.shape for l in leaves]
    self.n = len(leaves)

  def build(self, leaves, dtype=None):
    import jax.numpy as jnp
    if dtype is None or not isinstance(dtype, (list, tuple)):
      dtype = [dtype] * len(leaves)
    return jax.tree_util.tree_unflatten(
        self.treedef, [jnp.asarray(l, dtype=d) for l, d in zip(leaves, dtype)])

  def zeros(self):
    return [np.zeros(s) for s in self.shapes]

  def full(self, v):
    return [np.full(s, float(v)) for s in self.shapes]

  def vals(self, k=1, scale=1.0, signs='mix'):
    """Deterministic, distinct, irrational-looking entries of order `scale`."""
    out = []
    for j, s in enumerate(self.shapes):
      n = int(np.prod(s, dtype=np.int64))
      e = np.arange(n)
      frac = np.modf(0.6180339887498949 * (e + 1) + 0.3127 * j + 0.1713 * k)[0]
      v = 0.4 + frac
      if signs == 'mix':
        v = v * np.where((e + j + k) % 2 == 0, 1.0, -1.0)
      elif signs == 'neg':
        v = -v
      out.append((scale * v).reshape(s))
    return out

  def dyadic(self):
    """Exact powers of two, so that comparisons in the laws can tie."""
    menu = (0.5, -0.5, 0.25, 1., -2., -0.25)
    return [np.array([menu[(e + j) % 6] for e in range(int(np.prod(s, dtype=np.int64)))], np.float64).reshape(s)
            for j, s in enumerate(self.shapes)]

  def hot(self, leaf=-1, value=2.5):
    """Zero except for the first entry of one (non-empty) leaf."""
    out = self.zeros()
    order = [i for i in range(self.n) if out[i].size]
    i = order[leaf]
    out[i].reshape(-1)[0] = value
    return out

  def poke(self, leaves, leaf, value, pos=-1):
    """Copy of `leaves` with one entry of one (non-empty) leaf replaced."""
    out = [l.copy() for l in leaves]
    order = [i for i in range(self.n) if out[i].size]
    i = order[leaf]
    out[i].reshape(-1)[pos] = value
    return out


def grads(tree, names):
  """The gradient alphabet: letters -> leaves."""
  g = {
      'z': lambda: tree.zeros(),
      'a': lambda: tree.vals(1),
      'b': lambda: tree.vals(2, -0.7),
      'c': lambda: tree.vals(5, 0.31),
      'p': lambda: tree.vals(3, 1.0, 'pos'),
      'm': lambda: tree.vals(3, 1.0, 'neg'),
      'L': lambda: tree.vals(4, 1e3),
      's': lambda: tree.vals(6, 1e-3),
      'd': lambda: tree.dyadic(),
      'D': lambda: [-2. * l for l in tree.dyadic()],
      't': lambda: tree.vals(6, 1e-7),
      'h': lambda: tree.hot(-1),
      'H': lambda: tree.hot(0, -1.5),
      'N': lambda: tree.poke(tree.vals(1), -1, np.nan),
      'M': lambda: tree.poke(tree.vals(2), 0, np.nan, 0),
      'I': lambda: tree.poke(tree.vals(3), -1, np.inf),
      'J': lambda: tree.poke(tree.vals(1), 0, -np.inf, 0),
      'F': lambda: tree.full(np.nan),
      'G': lambda: tree.full(np.inf),
  }
  return [(n, g[n]()) for n in names]


def leaves_of(x):
  """Numpy float64 leaves of a tree returned by the code under test."""
  return [np.asarray(jax.device_get(l)).astype(np.float64)
          if np.asarray(l).dtype != np.bool_ else np.asarray(l)
          for l in jax.tree_util.tree_leaves(x)]


def close(a, b, rtol, atol):
  """Whether two lists of leaves agree; NaN and infinities must coincide."""
  if len(a) != len(b):
    return False
  for x, y in zip(a, b):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
      return False
  if not a:
    return True
  x = np.concatenate([np.ravel(np.asarray(l, np.float64)) for l in a])
  y = np.concatenate([np.ravel(np.asarray(l, np.float64)) for l in b])
  with np.errstate(all='ignore'):
    ok = (np.abs(x - y) <= atol + rtol * np.maximum(np.abs(x), np.abs(y)))
    ok &= np.isfinite(x) & np.isfinite(y)
    ok |= (x == y) | (np.isnan(x) & np.isnan(y))
  return bool(ok.all())


def worst(a, b):
  """Largest difference, for reporting."""
  try:
    x = np.concatenate([np.ravel(np.asarray(l, np.float64)) for l in a])
    y = np.concatenate([np.ravel(np.asarray(l, np.float64)) for l in b])
    i = int(np.nanargmax(np.where(np.isfinite(x - y), np.abs(x - y), np.inf)))
    return 'entry %d: got %r, expected %r' % (i, float(x[i]), float(y[i]))
  except Exception:  # pylint: disable=broad-except
    return 'shapes %s vs %s' % ([np.shape(l) for l in a], [np.shape(l) for l in b])
