""" C07: remarginalising conserves mass and bins every probability once. """
import collections, math
import numpy as np
import probayes as pb
from pbmon import gen, model
from pbmon.core import Skip

RULE = ('a case counts for a distinct (source shape and axis order, target shape, conditionals, scale kind, '
        'magnitude, kinds of values: inside, on an edge, beyond the grid) combination')
ASSUMPTIONS = ['grids are increasing; every target variable with values has its own axis']

def case(t, deep=0., log=None, wide=False):
  names = t.rng.sample(gen.NAMES, t.int(1, 4))
  ncond = t.int(0, min(2, len(names) - 1)) if t.chance(.5) else 0
  cond, marg = names[:ncond], names[ncond:]
  spec = gen.Spec(t, names, p_scalar=t.choice([0., 0., .25]), max_size=5)
  share = gen.groups(t, spec, [marg], p=.2)
  if all(spec.isscalar(n) for n in names): raise Skip()
  scale = gen.scale(t, log)
  lp = None
  if wide:
    shape = tuple(spec.vals[n].size for n in names if not spec.isscalar(n))
    share, cond, marg = [], [], names
    lp = -4000. * np.asarray(t.np.random(shape))
  dist = gen.build(t, marg, cond, spec.vals, scale, share=share, deep=deep, lp=lp,
                   shuffle_dims=not wide)
  # target grid
  new = t.rng.sample(['u', 'v', 'w2', marg[0]], t.int(1, 3))
  grid = collections.OrderedDict()
  for i, k in enumerate(new):
    if i and t.chance(.15):
      grid[k] = t.choice([1.5, 3])
    else:
      grid[k] = np.sort(gen.values(t, t.int(1, 5), kind='float')) * .5
      if t.chance(.25): grid[k] = np.sort(gen.values(t, t.int(1, 5), kind='int'))
  if not any(isinstance(v, np.ndarray) for v in grid.values()): raise Skip()
  arr = [k for k in new if isinstance(grid[k], np.ndarray)]
  axes = t.shuffled(range(len(arr)))
  dims = {k: None for k in new}
  for k, a in zip(arr, axes): dims[k] = a
  kw = {'dims': dims} if axes != list(range(len(arr))) or t.chance(.5) else {}
  target = t.call('Distribution', pb.Distribution, ','.join(new), dict(grid), **kw)
  vals, kinds = {}, set()
  for k in arr:
    v = np.empty(dist.shape, dtype=float)
    g = grid[k]
    flat = v.reshape(-1)
    for i in range(flat.size):
      r = t.rng.random()
      if r < .15: flat[i] = g[0] - 5. * t.rng.random() - .1; kinds.add('below')
      elif r < .3: flat[i] = g[-1] + 5. * t.rng.random() + .1; kinds.add('above')
      elif r < .5: flat[i] = g[t.int(0, len(g) - 1)]; kinds.add('edge')
      else: flat[i] = g[0] + (g[-1] - g[0]) * t.rng.random(); kinds.add('inside')
    vals[k] = flat.reshape(tuple(dist.shape))
  # reference: put each entry's probability in its bin
  cells = {}
  conds = [k for k in dist.cond]
  base = {k: model.tidy(grid[k]) for k in new if k not in arr}
  import itertools
  cond_assign = {frozenset((k, a[k]) for k in conds) for a, _ in model.entries(dist)}
  for combo in itertools.product(*[list(grid[k]) for k in arr]):
    for ca in cond_assign:
      a = dict(base); a.update(zip(arr, map(float, combo))); a.update(dict(ca))
      cells[frozenset(a.items())] = []
  for i, (a, lp_) in enumerate(model.entries(dist)):
    idx = np.unravel_index(i, tuple(dist.shape))
    b = dict(base)
    for k in arr:
      x, g = vals[k][idx], grid[k]
      j = max([m for m in range(len(g)) if g[m] <= x], default=0)
      b[k] = float(g[j])
    b.update({k: a[k] for k in conds})
    cells[frozenset(b.items())].append(lp_)
  want = model.Table(new, conds, {k: model.logsum(v) for k, v in cells.items()})
  snap = gen.snapshot(dist)
  before = {k: v.copy() for k, v in vals.items()}
  form = t.choice(['dict', 'kwds'])
  if form == 'dict':
    out = t.call('remarginalise', dist.remarginalise, target, dict(vals))
  else:
    out = t.call('remarginalise', dist.remarginalise, target, **vals)
  model.agree(t, out, want, 'remarginalise', tol=1e-8)
  mass = model.logsum([lp_ for _, lp_ in model.entries(out)])
  t.check(model.near(mass, model.logsum([lp_ for _, lp_ in model.entries(dist)]), 1e-8), 'mass', str(mass))
  gen.unchanged(t, dist, snap, 'operand')
  t.check(all(np.array_equal(vals[k], before[k]) for k in vals), 'operand', 'values changed')
  t.cover(form, tuple((dist.dims[k], k in dist.cond) for k in dist), tuple(dist.shape),
          tuple(dims.values()), tuple(len(grid[k]) for k in arr), gen.skind(scale), deep, wide,
          frozenset(kinds))
  t.sample({'dist': repr(dist), 'shape': dist.shape, 'target': {k: np.asarray(v).tolist() for k, v in grid.items()},
            'result': repr(out), 'mass': mass})

def plain(t): case(t)
def deep(t): case(t, t.choice([-760., -4000., -1e5]), True)
def wide(t): case(t, 0., True, True)

STAGES = {
  'plain': (plain, 12000, 72000),
  'deep':  (deep, 2000, 12000),
  'wide':  (wide, 1600, 9600),
}
