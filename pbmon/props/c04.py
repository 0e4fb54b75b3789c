""" C04: conditioning and division agree with Bayes' rule. """
import math
import numpy as np
import probayes as pb
from pbmon import gen, model
from pbmon.core import Skip

RULE = ('a case counts for a distinct (operation, variables conditioned on, axis order, scalars, existing '
        'conditionals, scale kind, magnitude) structure whose every cell was compared')
ASSUMPTIONS = ['at least one array-valued marginal remains, or every value is a scalar',
               'variables sharing an axis are conditioned on together']

def arg(t, keys):
  keys = t.shuffled(keys)
  if len(keys) == 1 and t.chance(.5):
    return keys[0]
  return t.choice([list, tuple, set])(keys)

def joint(t, deep=0., log=None, scalar_keys=True):
  names = t.rng.sample(gen.NAMES, t.int(2, 5))
  spec = gen.Spec(t, names, p_scalar=t.choice([0., 0., .2, .4]), max_size=4)
  ncond = t.int(0, min(2, len(names) - 2)) if len(names) > 2 and t.chance(.5) else 0
  marg, cond = names[ncond:], names[:ncond]
  keys = t.rng.sample(marg, t.int(1, len(marg) - 1))
  keep = [m for m in marg if m not in keys]
  if not any(not spec.isscalar(k) for k in keep) or \
     (not scalar_keys and any(spec.isscalar(k) for k in keys)):
    raise Skip()
  share = gen.groups(t, spec, [keys, keep, cond], p=.2)
  scale = gen.scale(t, log)
  dist = gen.build(t, marg, cond, spec.vals, scale, share=share, deep=deep)
  return dist, keys, keep, cond, share, scale

def sig(dist, keys, share, scale):
  return (tuple((dist.dims[k], k in keys, k in dist.cond) for k in dist.keys()), len(share), gen.skind(scale))

def sums_to_one(t, out, keep, kind):
  sums = {}
  for a, lp in model.entries(out):
    g = frozenset((k, v) for k, v in a.items() if k in out.cond)
    sums.setdefault(g, []).append(lp)
  for g, lps in sums.items():
    total = model.logsum(lps)
    t.check(total == -math.inf or abs(total) < 1e-7, kind, 'conditionals add up to exp({})'.format(total))

def condition(t, deep=0., log=None):
  dist, keys, keep, cond, share, scale = joint(t, deep, log)
  table = model.read(dist)
  snap = gen.snapshot(dist)
  want = model.conditionalise(table, keys)
  out = t.call('conditionalise', dist.conditionalise, arg(t, keys))
  model.agree(t, out, want, 'conditionalise', tol=1e-8)
  t.check(gen.norm_scale(scale) == out.pscale, 'scale', '{} -> {}'.format(scale, out.pscale))
  sums_to_one(t, out, keep, 'sums-to-one')
  gen.unchanged(t, dist, snap, 'operand')
  t.cover('condition', sig(dist, keys, share, scale), deep)
  t.sample({'dist': repr(dist), 'dims': dict(dist.dims), 'given': keys, 'result': repr(out), 'cells': len(want.cells)})

def divide(t, deep=0., log=None):
  """ joint / marginal, and back again. """
  dist, keys, keep, cond, share, scale = joint(t, deep, log)
  scal = [k for k in dist.marg if dist.dims[k] is None]
  table = model.read(dist)
  arrays = [k for k in keep if dist.dims[k] is not None]
  marg_table = model.marginalise(table, arrays)
  # marginals are P(keys and remaining scalars | cond)
  if any(k in scal for k in keep):
    raise Skip()
  marg = t.call('marginal', dist.marginal, arg(t, keys + [k for k in scal if k not in keys]))
  model.agree(t, marg, marg_table, 'marginal')
  other_scale = t.chance(.3)
  if other_scale:
    new = gen.scale(t, log)
    marg = t.call('rescaled', marg.rescaled, new)
  if marg.ndim and t.chance(.4) and len(marg.keys()) > 1:
    # the divisor's axes may come in any order
    marg = permuted(t, marg)
  snap, snap2 = gen.snapshot(dist), gen.snapshot(marg)
  if marg.issingleton and set(scal) != set(marg.marg):
    raise Skip()
  if not (dist.pscale == marg.pscale) and deep and not isinstance(marg.pscale, complex):
    raise Skip()
  out = t.call('PD/PD', lambda: dist / marg)
  want = model.conditionalise(table, keys)
  model.agree(t, out, want, 'divide', tol=1e-8)
  sums_to_one(t, out, keep, 'divide-sums-to-one')
  gen.unchanged(t, dist, snap, 'divide:operand')
  gen.unchanged(t, marg, snap2, 'divide:operand')
  t.cover('divide', sig(dist, keys, share, scale), tuple(marg.dims[k] for k in marg), gen.skind(marg.pscale))
  # multiplying by the marginal restores the joint wherever the marginal is positive
  if not share:
    back = t.call('PD*PD', lambda: out * marg)
    model.agree(t, back, table, 'restore', tol=1e-7, strict=False)
  # the alternative route
  alt = t.call('conditionalise', dist.conditionalise, arg(t, keys))
  model.agree(t, alt, want, 'conditionalise', tol=1e-8)

def permuted(t, dist):
  """ The same distribution with its keys and axes in another order. """
  keys = t.shuffled(dist.keys())
  axes = sorted({d for d in dist.dims.values() if d is not None})
  perm = t.shuffled(axes)
  dims = {k: None if dist.dims[k] is None else perm[dist.dims[k]] for k in keys}
  prob = np.moveaxis(np.array(dist.prob), axes, perm)
  vals = {k: (np.ravel(dist[k]) if dist.dims[k] is not None else dist[k]) for k in keys}
  return t.call('PD', pb.PD, dist.name, vals, dims=dims, prob=prob, pscale=dist.pscale)

def plain(t):
  condition(t)
def deep(t):
  (condition if t.chance(.5) else divide)(t, t.choice([-760., -3000., -1e5]), True)

def wide(t):
  names = t.rng.sample(gen.NAMES, t.int(2, 3))
  spec = gen.Spec(t, names, p_scalar=0.)
  lp = -5000. * t.np.random(tuple(spec.vals[n].size for n in names))
  dist = gen.build(t, names, [], spec.vals, gen.scale(t, True), lp=lp, shuffle_dims=False)
  keys = t.rng.sample(names, t.int(1, len(names) - 1))
  out = t.call('conditionalise', dist.conditionalise, arg(t, keys))
  model.agree(t, out, model.conditionalise(model.read(dist), keys), 'wide', tol=1e-8, strict=True)
  t.cover('wide', len(names), len(keys))

def bayes(t):
  """ Posterior from prior and likelihood, by every route. """
  a, b, c = t.rng.sample(gen.NAMES, 3)
  spec = gen.Spec(t, [a, b, c], p_scalar=0., max_size=4)
  scale = gen.scale(t)
  pa = gen.build(t, [a], [], spec.vals, scale, normal=True, zeros=False)
  pba = gen.build(t, [b], [a], spec.vals, scale, zeros=False)
  pba = t.call('conditionalise', lambda: (pba * pa).conditionalise(a))
  jt = model.product([model.read(pba), model.read(pa)])
  joint_ = t.call('PD*PD', lambda: pba * pa)
  post = t.call('conditionalise', joint_.conditionalise, b)
  want = model.conditionalise(jt, [b])
  model.agree(t, post, want, 'posterior', tol=1e-8)
  pb_ = t.call('marginal', joint_.marginal, b)
  post2 = t.call('PD/PD', lambda: joint_ / pb_)
  model.agree(t, post2, want, 'posterior-division', tol=1e-8)
  # observing a value of b: slice, then normalise
  val = t.choice(list(np.ravel(joint_[b])))
  obs = t.call('slice', joint_, {b: val})
  post3 = t.call('conditionalise', obs.conditionalise, b)
  model.agree(t, post3, model.restrict(want, {b: val}), 'posterior-observed', tol=1e-8)
  evid = t.call('marginal', obs.marginal, b)
  post4 = t.call('PD/PD', lambda: obs / evid)
  model.agree(t, post4, model.restrict(want, {b: val}), 'posterior-evidence', tol=1e-8)
  post5 = t.call('slice', post, {b: val})
  model.agree(t, post5, model.restrict(want, {b: val}), 'posterior-slice', tol=1e-8)
  t.cover('bayes', tuple(joint_.dims.values()), gen.skind(scale), pba.ndim)

def refuse(t):
  a, b, c, d = t.rng.sample(gen.NAMES, 4)
  spec = gen.Spec(t, [a, b, c, d], p_scalar=0.)
  dist = gen.build(t, [a, b], [c], spec.vals, 1.)
  what = t.choice(['cond', 'unknown', 'conds'])
  if what == 'cond':
    t.rejects('conditionalise-cond', dist.conditionalise, c)
  elif what == 'unknown':
    t.rejects('conditionalise-unknown', dist.conditionalise, [a, 'zz'])
  else:
    other = gen.build(t, [a], [d] if t.chance(.5) else [], spec.vals, 1.)
    t.rejects('divide-conds', lambda: dist / other)
  t.cover('refuse', what)

STAGES = {
  'plain':  (plain, 16000, 96000),
  'divide': (divide, 16000, 96000),
  'deep':   (deep, 3200, 19200),
  'wide':   (wide, 1600, 9600),
  'bayes':  (bayes, 2400, 14400),
  'refuse': (refuse, 1200, 7200),
}
