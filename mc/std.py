"""Standard units over (label, make code, model) cases."""
from mc.explore import Spec, explore, lasso, set_counts
from mc import models
from mc.trees import Tree, grads


def with_params(tree, letters, params=('p1', 'p2')):
  """Actions that pair every gradient with several parameter values."""
  ps = {'p1': tree.vals(9, 0.8), 'p2': tree.vals(11, -2.0), 'p0': tree.zeros(),
        'pL': tree.vals(7, 50.), 'pp': tree.vals(8, 1.0, 'pos')}
  return [(a + '/' + n, g, ps[n]) for a, g in grads(tree, letters) for n in params]


def actions_for(model, tree, letters, params):
  if model.needs_params and params:
    return with_params(tree, letters, params)
  return grads(tree, letters)


def deep(ctx, make, model, tree, letters, depth, mode='jit', label='', params=None,
         closed=False, count=None, **spec):
  """All histories of one configuration, from the start or from a late count."""
  t = Tree(tree)
  start = None
  if count is not None:
    start = lambda s, mm: (set_counts(s, count), models.set_counts(mm, count))
  explore(ctx, Spec(make(), model, t, mode=mode, label=label, start=start, **spec),
          actions_for(model, t, letters, params), depth, closed=closed)


def wide(ctx, cases, tree, letters, depth, mode='eager', params=None, **spec):
  """Short histories of many configurations on one tree."""
  t = Tree(tree)
  for label, make, model, *more in cases:
    explore(ctx, Spec(make(), model, t, mode=mode, label=label, **spec,
                      **(more[0] if more else {})),
            actions_for(model, t, letters, params), depth)


def counts(ctx, cases, tree, letters, depth, ns, mode='jit', **spec):
  """Histories that start after `n` earlier updates, for every listed n."""
  t = Tree(tree)
  for label, make, model, *more in cases:
    tx = make()
    for n in ns:
      sp = Spec(tx, model, t, mode=mode, label='%s@%d' % (label, n), **spec,
                **(more[0] if more else {}))
      sp.start = lambda s, mm, n=n: (set_counts(s, n), models.set_counts(mm, n))
      if ns.index(n):
        sp.step = step  # reuse the compiled function
      step = sp.step
      explore(ctx, sp, grads(t, letters), depth)


def long(ctx, make, model, tree, steps, label, closed=False, cycles=None, **spec):
  """Ultimately periodic histories of many steps."""
  t = Tree(tree)
  g = dict(grads(t, 'zabcLsptm'))
  sp = Spec(make(), model, t, label=label, **spec)
  for pre, cyc in cycles or (('L', 'a'), ('', 'ab'), ('a', 'zabs'), ('', 'aaz')):
    lasso(ctx, sp, [(x, g[x]) for x in pre], [(x, g[x]) for x in cyc], steps, closed)


def pow2_counts(lo=0, hi=31):
  out = {0, 1, 2, 3}
  for k in range(lo, hi):
    out |= {2**k - 1, 2**k, 2**k + 1}
  out |= {10, 99, 100, 999, 1000, 9999, 10000, 10**5, 10**6, 10**9}
  out |= {2**31 - 3, 2**31 - 2, 2**31 - 1}
  return sorted(x for x in out if 0 <= x <= 2**31 - 1)
