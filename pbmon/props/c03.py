""" C03: marginalising sums exactly over the variables removed. """
import math
import numpy as np
import probayes as pb
from pbmon import gen, model
from pbmon.core import Skip

RULE = ('a case counts for a distinct (number of variables, removed positions, axis order, shared axes, '
        'scalars, conditionals, scale kind, magnitude) structure whose every cell was compared')
ASSUMPTIONS = ['at least one variable remains', 'variables sharing an axis are removed together (the interface documents that they cannot be separated)']

def joint(t, deep=0., log=None, nmin=2, nmax=5, scalars=.15):
  names = t.rng.sample(gen.NAMES, t.int(nmin, nmax))
  spec = gen.Spec(t, names, p_scalar=t.choice([0., 0., scalars, .4]), max_size=4)
  ncond = t.int(0, min(2, len(names) - 2)) if len(names) > 2 and t.chance(.5) else 0
  marg, cond = names[ncond:], names[:ncond]
  out = [m for m in marg if not spec.isscalar(m)]
  if not out:
    raise Skip()
  drop = t.rng.sample(out, t.int(1, len(out)))
  keep = [m for m in marg if m not in drop]
  if not keep and not cond:
    keep.append(drop.pop())
  if not drop:
    raise Skip()
  share = gen.groups(t, spec, [drop, keep, cond], p=.25)
  scale = gen.scale(t, log)
  dist = gen.build(t, marg, cond, spec.vals, scale, share=share, deep=deep)
  return dist, drop, keep, cond, share, scale

def sig(dist, drop, share, scale):
  return (tuple((dist.dims[k], k in drop, k in dist.cond) for k in dist.keys()), len(share), gen.skind(scale))

def arg(t, keys):
  keys = t.shuffled(keys)
  if len(keys) == 1 and t.chance(.5):
    return keys[0]
  return t.choice([list, tuple, set])(keys)

def removed(t, deep=0., log=None, strict=None):
  dist, drop, keep, cond, share, scale = joint(t, deep, log)
  table = model.read(dist)
  snap = gen.snapshot(dist)
  want = model.marginalise(table, drop)
  out = t.call('marginalise', dist.marginalise, arg(t, drop))
  t.check(gen.norm_scale(scale) == out.pscale, 'scale', 'scale {} -> {}'.format(scale, out.pscale))
  model.agree(t, out, want, 'marginalise')
  gen.unchanged(t, dist, snap, 'operand')
  got = model.logsum([p for _, p in model.entries(out)])
  t.check(model.near(got, table.mass(), 1e-8), 'mass', '{} {}'.format(got, table.mass()))
  # one variable (or group) at a time, in any order
  parts = []
  for d in drop:
    g = next((s for s in share if d in s), (d,))
    if g not in parts: parts.append(g)
  step = dist
  for g in t.shuffled(parts):
    step = t.call('marginalise', step.marginalise, arg(t, g))
  model.agree(t, step, want, 'stepwise', tol=1e-8)
  t.cover('removed', sig(dist, drop, share, scale), deep)
  t.sample({'dist': repr(dist), 'dims': dict(dist.dims), 'removed': drop, 'result': repr(out),
            'cells': len(want.cells)})
  # the marginal of what is kept
  if keep:
    scal = [m for m in dist.marg if dist.dims[m] is None]
    asked = [k for k in keep]
    if all(s in asked for s in scal):
      m = t.call('marginal', dist.marginal, arg(t, asked))
      model.agree(t, m, want, 'marginal')
      t.cover('marginal', sig(dist, drop, share, scale), deep)

def plain(t):
  removed(t)

def deep(t):
  removed(t, deep=t.choice([-760., -3000., -1e5]), log=True)

def wide(t):
  """ Log probabilities spread over thousands of units within one distribution. """
  names = t.rng.sample(gen.NAMES, t.int(2, 3))
  spec = gen.Spec(t, names, p_scalar=0.)
  shape = tuple(spec.vals[n].size for n in names)
  lp = -5000. * t.np.random(shape)
  dist = gen.build(t, names, [], spec.vals, gen.scale(t, True), lp=lp, shuffle_dims=False)
  drop = t.rng.sample(names, t.int(1, len(names) - 1))
  out = t.call('marginalise', dist.marginalise, arg(t, drop))
  model.agree(t, out, model.marginalise(model.read(dist), drop), 'wide', strict=True)
  t.cover('wide', shape, len(drop))

def refuse(t):
  """ Conditionals, scalars and unknown variables cannot be marginalised out. """
  names = t.rng.sample(gen.NAMES, 4)
  spec = gen.Spec(t, names, p_scalar=0.)
  spec.vals[names[2]] = gen.scalar(t)
  dist = gen.build(t, names[:3], names[3:], spec.vals, gen.scale(t))
  what = t.choice(['cond', 'scalar', 'unknown', 'part'])
  if what == 'cond':
    t.rejects('marginalise-cond', dist.marginalise, [names[0], names[3]] if t.chance(.5) else names[3])
    t.rejects('marginal-cond', dist.marginal, [names[3], names[2]])
  elif what == 'scalar':
    t.rejects('marginalise-scalar', dist.marginalise, t.choice([names[2], names[1:3]]))
  elif what == 'unknown':
    t.rejects('marginalise-unknown', dist.marginalise, 'zz')
    t.rejects('marginal-unknown', dist.marginal, ['zz', names[2]])
  else:
    spec.vals[names[1]] = gen.values(t, spec.vals[names[0]].size)
    dist = gen.build(t, names[:3], names[3:], spec.vals, 1., share=[tuple(names[:2])])
    t.rejects('marginal-part', dist.marginal, [names[0], names[2]])
    t.rejects('marginalise-part', dist.marginalise, [names[0]])
  t.cover('refuse', what, tuple(dist.dims[k] for k in names))

STAGES = {
  'plain':  (plain, 16000, 96000),
  'deep':   (deep, 3200, 19200),
  'wide':   (wide, 1600, 9600),
  'refuse': (refuse, 1200, 7200),
}
