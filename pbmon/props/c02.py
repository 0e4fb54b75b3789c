""" C02: the product rule, cell by cell. """
import math
import numpy as np
import probayes as pb
from pbmon import gen, model
from pbmon.core import Skip

RULE = ('a case counts for a distinct structure: factors (marginal/conditional counts), which '
        'conditionals are consumed, ranks and axis orders, shared axes, scalar variables, scale kinds')
ASSUMPTIONS = ['factors use each variable with the same values; a group of variables sharing an axis shares it in every factor that has them']

def skind(s):
  s = gen.norm_scale(s)
  return 'log' if isinstance(s, complex) else 'lin'

def factors(t, n_min=1, n_max=4, share_ok=True, scales=None, log=None):
  nvar = t.int(2, 5)
  names = t.rng.sample(gen.NAMES, nvar)
  next_ = t.int(0, 2) if t.chance(.5) else 0
  ext = names[:min(next_, nvar - 1)]
  inner = names[len(ext):]
  k = t.int(n_min, min(n_max, len(inner)))
  blocks = [[] for _ in range(k)]
  for i, v in enumerate(t.shuffled(inner)):
    blocks[i if i < k else t.int(0, k - 1)].append(v)
  spec = gen.Spec(t, names, p_scalar=t.choice([0., 0., .2, .6]), max_size=4)
  share = []
  if share_ok and t.chance(.3):
    arr = [v for v in names if not spec.isscalar(v)]
    if len(arr) >= 2:
      grp = t.rng.sample(arr, t.int(2, min(3, len(arr))))
      size = spec.vals[grp[0]].size
      for v in grp[1:]:
        spec.vals[v] = gen.values(t, size)
      share.append(tuple(grp))
  shape = []
  dists, struct = [], []
  scale = t.choice(['same', 'mixed'])
  common = gen.scale(t, log)
  for i, marg in enumerate(blocks):
    others = [v for j, b in enumerate(blocks) if j != i for v in b]
    cond = t.rng.sample(others, t.int(0, min(2, len(others)))) if others and t.chance(.6) else []
    if ext and (t.chance(.7)):
      cond = t.shuffled(cond + ext)
    shr = [tuple(v for v in g if v in marg + cond) for g in share]
    shr = [g for g in shr if len(g) > 1]
    s = common if scale == 'same' else gen.scale(t, log)
    d = gen.build(t, t.shuffled(marg), cond, spec.vals, s, share=shr)
    dists.append(d)
    struct.append((len(marg), len([c for c in cond if c in ext]), len(cond), d.ndim,
                   len(shr), tuple(d.dims[k] for k in d.keys()), skind(s)))
  return dists, names, spec, ext, tuple(struct)

def rule(t):
  dists, names, spec, ext, struct = factors(t)
  tables = [model.read(d) for d in dists]
  snaps = [gen.snapshot(d) for d in dists]
  want = model.product(tables)
  cells = 1
  kw = {}
  if t.chance(.3):
    kw['pscale'] = gen.scale(t)
    if kw['pscale'] is None: kw = {}
  if len(dists) == 2 and not kw and t.chance(.6):
    out = t.call('PD*PD', lambda: dists[0] * dists[1])
  else:
    out = t.call('product', pb.product, *dists, **kw)
  if kw:
    s = gen.norm_scale(kw['pscale'])
    t.check(out.pscale == s and isinstance(out.pscale, complex) == isinstance(s, complex),
            'scale', 'asked for scale {} got {}'.format(s, out.pscale))
  # linear arithmetic only ever leaves range where all factors are linear
  strict = all(isinstance(d.pscale, complex) for d in dists) and isinstance(out.pscale, complex)
  model.agree(t, out, want, 'product', strict=strict)
  for d, s in zip(dists, snaps):
    gen.unchanged(t, d, s, 'product:operand')
  t.cover('rule', struct, skind(kw['pscale']) if kw else None)
  t.sample({'factors': [repr(d) for d in dists], 'dims': [dict(d.dims) for d in dists],
            'product': repr(out), 'dims_out': dict(out.dims), 'cells': len(want.cells)})
  # any other order of the factors represents the same thing
  if len(dists) > 1:
    perm = t.shuffled(dists)
    alt = t.call('product', pb.product, *perm)
    model.agree(t, alt, want, 'product-permuted', strict=False)

def chain(t):
  """ Bracketing: (p*q)*r = p*(q*r) = product(p,q,r), when every step is compatible. """
  names = t.rng.sample(gen.NAMES, t.int(3, 5))
  spec = gen.Spec(t, names, p_scalar=.15)
  dists = []
  for i, v in enumerate(names):
    dists.append(gen.build(t, [v], t.shuffled(names[:i]), spec.vals, gen.scale(t), normal=False))
  want = model.product([model.read(d) for d in dists])
  # p(a) p(b|a) p(c|a,b) ...: left to right every conditional is met by what is there
  left = dists[0]
  for d in dists[1:]:
    left = t.call('PD*PD', lambda: left * d)
  model.agree(t, left, want, 'chain-left', tol=1e-8, strict=False)
  right = dists[-1]
  # right to left the remaining conditionals are only those of the last factor
  if len(names) == 3:
    right = t.call('PD*PD', lambda: dists[2] * dists[1])
    right = t.call('PD*PD', lambda: right * dists[0])
    model.agree(t, right, want, 'chain-right', tol=1e-8, strict=False)
  full = t.call('product', pb.product, *t.shuffled(dists))
  model.agree(t, full, want, 'chain-full', tol=1e-8, strict=False)
  t.cover('chain', len(names), tuple(d.ndim for d in dists), tuple(skind(d.pscale) for d in dists))

def deep(t):
  """ Log probabilities far below what a linear scale can hold. """
  names = t.rng.sample(gen.NAMES, t.int(2, 3))
  spec = gen.Spec(t, names, p_scalar=.2)
  dists = []
  for i, v in enumerate(names):
    dists.append(gen.build(t, [v], t.shuffled(names[:i]) if t.chance(.5) or i < 2 else [],
                           spec.vals, gen.scale(t, True), deep=t.choice([-900., -5000., -1e5])))
  want = model.product([model.read(d) for d in dists])
  out = t.call('product', pb.product, *t.shuffled(dists))
  model.agree(t, out, want, 'deep', strict=True)
  t.cover('deep', tuple(d.ndim for d in dists))

def refuse(t):
  """ Incompatible factors. """
  names = t.rng.sample(gen.NAMES, 4)
  spec = gen.Spec(t, names, p_scalar=.3)
  a, b, c, e = names
  what = t.choice(['marg', 'marg', 'cond', 'values', 'extvalues', 'scalar'])
  other = dict(spec.vals)
  style = t.choice(['plain', 'eq'])
  if what == 'marg':
    p = gen.build(t, [a, b], [], spec.vals, 1.)
    q = gen.build(t, t.shuffled([b, c]), [], spec.vals, 1.)
  elif what == 'cond':
    p = gen.build(t, [a], [c], spec.vals, 1., style=style)
    q = gen.build(t, [b], [e], spec.vals, 1., style=style)
  elif what == 'values':
    if spec.isscalar(a): raise Skip()
    other[a] = spec.vals[a] + 100 if spec.vals[a].dtype != bool else np.array([7., 8.])[:spec.vals[a].size]
    p = gen.build(t, [a], [], spec.vals, 1., style=style)
    q = gen.build(t, [b], [a], other, 1., style=style)
  elif what == 'extvalues':
    if spec.isscalar(c): raise Skip()
    other[c] = spec.vals[c] + 100 if spec.vals[c].dtype != bool else np.array([7., 8.])[:spec.vals[c].size]
    p = gen.build(t, [a], [c], spec.vals, 1., style=style)
    q = gen.build(t, [b], [c], other, 1., style=style)
  else:
    if not spec.isscalar(a): spec.vals[a] = 1.5
    other[a] = 2.5 if spec.vals[a] != 2.5 else 1.
    p = gen.build(t, [a], [], spec.vals, 1., style=style)
    q = gen.build(t, [b], [a], other, 1., style=style)
  pair = [p, q] if t.chance(.5) else [q, p]
  t.rejects('product-' + what, pb.product, *pair)
  t.cover('refuse', what, style, pair[0] is p, tuple(spec.isscalar(v) for v in names))

STAGES = {
  'rule':   (rule, 16000, 96000),
  'chain':  (chain, 2000, 12000),
  'deep':   (deep, 2000, 12000),
  'refuse': (refuse, 3200, 19200),
}
