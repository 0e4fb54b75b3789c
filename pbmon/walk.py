""" Random histories of operations over a shared pool of distributions. """
import collections, math, os, tempfile
import numpy as np
import probayes as pb
from probayes.pd_utils import serialise, deserialise, write_dist, read_dist
from pbmon import gen, model
from pbmon.core import Skip

def arrays(d, keys=None):
  return [k for k in (d.keys() if keys is None else keys) if d.dims[k] is not None]

def group(d, key):
  return [k for k in d.keys() if d.dims[k] == d.dims[key]]

def unitset(d):
  return any(isinstance(v, set) for v in d.values())

def start(t, n=3, share=True):
  """ A pool of distributions over a few common variables. """
  names = t.rng.sample(gen.NAMES, 4)
  spec = gen.Spec(t, names, p_scalar=.15)
  shr = gen.groups(t, spec, [names], p=.3) if share else []
  pool = []
  for _ in range(n):
    keys = t.rng.sample(names, t.int(1, 4))
    cut = t.int(1, len(keys))
    sh = [tuple(k for k in g if k in keys) for g in shr]
    pool.append(gen.build(t, keys[:cut], keys[cut:], spec.vals, gen.scale(t),
                          share=[g for g in sh if len(g) > 1]))
  return pool

def op_mul(t, pool):
  a, b = t.choice(pool), t.choice(pool)
  if set(a.marg) & set(b.marg): raise Skip()
  ca, cb = set(a.cond) - set(b.marg), set(b.cond) - set(a.marg)
  if ca and cb and ca != cb: raise Skip()
  for k in set(a) & set(b):
    if np.shape(np.ravel(a[k])) != np.shape(np.ravel(b[k])) or isinstance(a[k], set) or isinstance(b[k], set) \
        or (a.dims[k] is None) != (b.dims[k] is None) or not np.array_equal(np.ravel(a[k]), np.ravel(b[k])):
      raise Skip()
  # axes shared in one factor and not in the other cannot be combined
  both = [k for k in set(a) & set(b) if a.dims[k] is not None]
  for i in both:
    for j in both:
      if (a.dims[i] == a.dims[j]) != (b.dims[i] == b.dims[j]): raise Skip()
  keys = arrays(a) + [k for k in arrays(b) if k not in a]
  if np.prod([float(max(1, np.size((a if k in a else b)[k]))) for k in keys] or [1.]) > 2000: raise Skip()
  linked = tie(a, b)
  if linked is None: raise Skip()
  if t.chance(.5):
    return [a, b], t.call('PD*PD', lambda: a * b), 'mul'
  s = gen.scale(t)
  return [a, b], t.call('product', pb.product, a, b, **({'pscale': s} if s is not None else {})), 'mul'

def tie(a, b):
  """ Sharing must not tie together variables that a factor holds apart. """
  root = {}
  def find(k):
    root.setdefault(k, k)
    while root[k] != k: k = root[k]
    return k
  for d in (a, b):
    for k in arrays(d):
      for j in group(d, k): root[find(j)] = find(k)
  for d in (a, b):
    ks = arrays(d)
    for i in ks:
      for j in ks:
        if d.dims[i] != d.dims[j] and find(i) == find(j): return None
  return root

def op_marginalise(t, pool):
  d = t.choice(pool)
  cand = [k for k in arrays(d, d.marg) if all(j in d.marg for j in group(d, k))]
  if not cand: raise Skip()
  keys = group(d, t.choice(cand))
  if len(keys) == len(d): raise Skip()
  if t.chance(.3):
    keep = [k for k in d.marg if k not in keys]
    if all(j in keep or j in d.cond or d.dims[j] is None or True for j in keep) and keep:
      others = [k for k in keep if d.dims[k] is not None]
      if all(set(group(d, k)) <= set(keep) for k in others):
        return [d], t.call('marginal', d.marginal, keep), 'marginal'
  return [d], t.call('marginalise', d.marginalise, keys), 'marginalise'

def op_cond(t, pool):
  d = t.choice(pool)
  if unitset(d): raise Skip()
  arr = [k for k in arrays(d, d.marg) if all(j in d.marg for j in group(d, k))]
  if len({d.dims[k] for k in arr}) < 2: raise Skip()
  for k in arrays(d, d.marg):
    if not all(j in d.marg for j in group(d, k)): raise Skip()
  return [d], t.call('conditionalise', d.conditionalise, group(d, t.choice(arr))), 'cond'

def op_div(t, pool):
  d = t.choice(pool)
  if unitset(d): raise Skip()
  arr = [k for k in arrays(d, d.marg)]
  if any(not all(j in d.marg for j in group(d, k)) for k in arr): raise Skip()
  if len({d.dims[k] for k in arr}) < 2 or any(d.dims[k] is None for k in d.marg): raise Skip()
  keys = group(d, t.choice(arr))
  m = t.call('marginal', d.marginal, keys)
  return [d, m], t.call('PD/PD', lambda: d / m), 'div'

def op_prod(t, pool):
  d = t.choice(pool)
  cand = [k for k in arrays(d, d.marg) if all(j in d.marg for j in group(d, k))]
  if not cand or unitset(d): raise Skip()
  if not isinstance(d.pscale, complex) and abs(math.log(d.pscale)) > 20: raise Skip()
  return [d], t.call('prod', d.prod, group(d, t.choice(cand))), 'prod'

def op_rescaled(t, pool):
  d = t.choice(pool)
  return [d], t.call('rescaled', d.rescaled, gen.scale(t)), 'rescaled'

def op_sorted(t, pool):
  d = t.choice(pool)
  return [d], t.call('sorted', d.sorted, t.choice(list(d.keys()))), 'sorted'

def op_select(t, pool):
  d = t.choice(pool)
  arr = arrays(d)
  if not arr: raise Skip()
  sel = {k: t.choice(list(np.ravel(d[k]))) for k in t.rng.sample(arr, t.int(1, min(2, len(arr)))) if np.size(d[k])}
  if not sel: raise Skip()
  return [d], t.call('select', d, sel, keepdims=t.chance(.3)), 'select'

def op_rekey(t, pool):
  d = t.choice(pool)
  k = t.choice(list(d.keys()))
  new = t.choice(['z1', 'z2', 'z3'])
  if new in d: raise Skip()
  return [d], t.call('rekey', d.rekey, {k: new}), 'rekey'

def op_redim(t, pool):
  d = t.choice(pool)
  if not d.shape: raise Skip()
  perm = t.shuffled(range(len(d.shape)))
  return [d], t.call('redim', d.redim, collections.OrderedDict(
      (k, None if d.dims[k] is None else perm[d.dims[k]]) for k in t.shuffled(d.keys()))), 'redim'

def op_stats(t, pool):
  d = t.choice(pool)
  if unitset(d) or not d.size and d.shape: raise Skip()
  if t.chance(.5):
    t.call('expectation', d.expectation, list(d.marg), exponent=t.choice([None, 2]))
  elif not d.cond and d.shape:
    t.call('quantile', d.quantile, [.25, .5, .75])
  else:
    t.call('lookup', d.lookup, list(d.keys()))
  repr(d); d.short_name; d('marg')
  return [d], None, 'stats'

def op_serialise(t, pool):
  d = t.choice(pool)
  if t.chance(.6):
    out = t.call('deserialise', lambda: deserialise(serialise(d)))[0]
  else:
    base = os.environ.get('PBMON_WORK') or tempfile.gettempdir()
    fd, path = tempfile.mkstemp(dir=base); os.close(fd)
    try:
      t.call('write_dist', write_dist, path, d)
      out = t.call('read_dist', read_dist, path)[0]
    finally:
      os.remove(path)
  return [d], out, 'serialise'

def op_remarg(t, pool):
  d = t.choice(pool)
  if not d.shape or unitset(d) or not d.size: raise Skip()
  for k in arrays(d, d.marg):
    if not all(j in d.marg for j in group(d, k)): raise Skip()
  if not arrays(d, d.marg): raise Skip()
  if 'u9' in d: raise Skip()
  grid = pb.Distribution('u9', {'u9': np.linspace(-1., 1., t.int(2, 4))})
  return [d], t.call('remarginalise', d.remarginalise, grid, {'u9': t.np.normal(size=tuple(d.shape))}), 'remarg'

def op_add(t, pool):
  d = t.choice(pool)
  if d.shape and not d.size: raise Skip()
  if not d.shape:
    if unitset(d): raise Skip()
    return [d], t.call('PD+PD', lambda: d + d), 'add'
  ks = arrays(d)
  dim = d.dims[t.choice(ks)]
  vals = {k: (np.ravel(v) + 50 if d.dims[k] == dim else np.ravel(v) if d.dims[k] is not None else v)
          for k, v in d.items()}
  if any(v.dtype == bool for v in [np.ravel(d[k]) for k in ks if d.dims[k] == dim]): raise Skip()
  other = t.call('PD', pb.PD, d.name, vals, dims=dict(d.dims), prob=np.array(d.prob), pscale=d.pscale)
  return [d, other], t.call('PD+PD', lambda: d + other), 'add'

OPS = [op_mul, op_mul, op_marginalise, op_cond, op_div, op_prod, op_rescaled, op_sorted, op_select,
       op_rekey, op_redim, op_stats, op_serialise, op_remarg, op_add]
