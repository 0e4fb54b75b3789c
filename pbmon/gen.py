""" Generators of probayes distributions with known contents. """
import collections, math
import numpy as np
import probayes as pb
from pbmon import model

NAMES = ['a', 'b', 'c', 'd', 'e', 'f1', 'gg', 'x_0', 'ab', 'a1', 'g', 'x', 'A', 'x_01']

SCALES = [1., 1., 1., None, 2.5, 0.3, 1e-4, 'log', 'log', 0j, complex(1.7, 0.),
          complex(-3.25, 0.), complex(40., 0.), complex(1., 0.)]

def scale(t, log=None):
  if t.chance(.2):
    kind = t.int(0, 4)
    if log is True: kind = 1 + kind % 2
    if log is False: kind = 3 + kind % 2
    if kind <= 1: return complex(t.rng.uniform(-30., 30.), 0.)
    if kind == 2: return complex(t.rng.uniform(0.1, 10.), np.pi)
    if kind == 3: return math.exp(t.rng.uniform(-8., 8.))
    return float(t.int(2, 9))
  opts = SCALES
  if log is not None:
    opts = [s for s in SCALES if log == (s == 'log' or isinstance(s, complex))]
  return t.choice(opts)

def norm_scale(pscale):
  if pscale is None: return 1.
  if pscale == 'log': return 0j
  return pscale

def values(t, size, kind=None, monotonic=False):
  kind = kind or t.choice(['float', 'float', 'int', 'bool' if size <= 2 else 'int'])
  if kind == 'bool':
    vals = np.array([False, True])[:size] if size == 2 or t.chance(.5) else np.array([True])[:size]
  elif kind == 'int':
    vals = np.array(sorted(t.rng.sample(range(-9, 30), size)), dtype=int)
  else:
    vals = np.array(sorted(t.rng.sample(range(-40, 60), size)), dtype=float) * 0.25
  if not monotonic and t.chance(.3):
    vals = vals[np.array(t.shuffled(range(size)), dtype=int)]
  return vals

def scalar(t):
  return t.choice([t.int(-5, 9), t.int(-20, 20) * 0.5, t.chance(.5)])

def logps(t, shape, deep=True, zeros=True, normal=None):
  """ Random log probabilities. """
  mode = t.rng.random()
  p = np.asarray(t.np.random(shape)) + 1e-3
  if mode < .15:
    p = np.exp(8. * np.asarray(t.np.standard_normal(shape)))
  if zeros and mode > .8 and p.size > 1:
    mask = np.asarray(t.np.random(shape)) < .25
    p = np.where(mask, 0., p)
  if normal if normal is not None else t.chance(.4):
    total = p.sum()
    p = p / total if total > 0 else p
  with np.errstate(divide='ignore'):
    return np.log(p)

def make_prob(lp, pscale, deep=0.):
  """ Stored numbers for log probabilities lp at a scale. """
  pscale = norm_scale(pscale)
  lp = np.asarray(lp, dtype=float)
  out = np.array([model.stored(x, pscale) for x in lp.ravel()], dtype=float).reshape(lp.shape)
  return float(out) if out.ndim == 0 else out

class Spec:
  """ Variables with their values, shared between factors of a model. """
  def __init__(self, t, names, p_scalar=.15, max_size=4, monotonic=False):
    self.vals = collections.OrderedDict()
    large = t.choice(list(names)) if len(names) < 4 and t.chance(.05) else None
    for name in names:
      if name == large:
        self.vals[name] = values(t, t.int(5, 17), monotonic=monotonic); continue
      if t.chance(p_scalar):
        self.vals[name] = scalar(t)
      else:
        self.vals[name] = values(t, t.choice([1, 2, 2, 3, 3, max_size]), monotonic=monotonic)

  def isscalar(self, name):
    return not isinstance(self.vals[name], np.ndarray)

def build(t, marg, cond, vals, pscale=1., share=(), deep=0., zeros=True, lp=None,
          shuffle_dims=True, style=None, normal=None, dtype=None):
  """ A PD over marg|cond with values vals, in random key order and random axis
  order. share: groups of equally sized names on one common axis. """
  keys = list(marg) + list(cond)
  group = {k: (k,) for k in keys}
  for names in share:
    for k in names:
      group[k] = tuple(names)
  axes = []
  for k in keys:
    if isinstance(vals[k], np.ndarray) and group[k] not in axes:
      axes.append(group[k])
  order = t.shuffled(range(len(axes))) if shuffle_dims and t.chance(.7) else list(range(len(axes)))
  dims, shape = {}, [None] * len(axes)
  for pos, g in zip(order, axes):
    shape[pos] = vals[g[0]].size
    for k in g:
      dims[k] = pos
  if lp is None:
    lp = logps(t, tuple(shape), zeros=zeros, normal=normal) + deep
  prob = make_prob(lp, pscale)
  if dtype is not None and not np.isscalar(prob):
    prob = prob.astype(dtype)
  style = style or t.choice(['plain', 'eq'])
  def label(k):
    if style == 'eq' and isinstance(vals[k], np.ndarray):
      return k + '=[]'
    return k
  name = ','.join(label(k) for k in marg)
  if cond:
    name += '|' + ','.join(label(k) for k in cond)
  kw = {}
  # key order of the dictionary is independent of name order
  ordered = t.shuffled(keys) if t.chance(.4) else keys
  pairs = collections.OrderedDict((k, np.array(vals[k]) if isinstance(vals[k], np.ndarray)
                                   else vals[k]) for k in ordered)
  if dims and (order != list(range(len(axes))) or share or t.chance(.7) or ordered != keys):
    kw['dims'] = collections.OrderedDict((k, dims.get(k)) for k in ordered)
  t.note('PD({!r}, {}, dims={}, prob={}, pscale={})'.format(
      name, {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in pairs.items()},
      kw.get('dims') and dict(kw['dims']), np.asarray(prob).tolist(), pscale))
  return t.call('PD', pb.PD, name, pairs, prob=prob, pscale=pscale, **kw)

def snapshot(dist):
  """ Everything observable about a distribution, for mutation checks. """
  return (dist.name, list(dist.keys()),
          [np.array(v, copy=True) if isinstance(v, np.ndarray) else
           (frozenset(v) if isinstance(v, set) else v) for v in dist.values()],
          dict(dist.dims), dict(dist.marg), dict(dist.cond),
          np.array(dist.prob, copy=True), dist.pscale, list(dist.shape))

def unchanged(t, dist, snap, kind):
  now = snapshot(dist)
  same = now[0] == snap[0] and now[1] == snap[1] and now[3:6] == snap[3:6] and \
         now[7] == snap[7] and now[8] == snap[8] and \
         np.array_equal(now[6], snap[6], equal_nan=True) and now[6].shape == snap[6].shape
  for u, v in zip(now[2], snap[2]):
    same = same and (np.array_equal(u, v) and np.shape(u) == np.shape(v)
                     if isinstance(u, np.ndarray) else u == v)
  t.check(same, kind, 'operand changed: {} -> {}'.format(short(snap), short(now)))

def short(x):
  s = repr(x)
  return s[:600]

def groups(t, spec, pools, p=.3):
  """ Axis-sharing groups: each group is drawn within one pool of names, and is
  given values of one size. """
  share = []
  for pool in pools:
    arr = [v for v in pool if not spec.isscalar(v)]
    if len(arr) >= 2 and t.chance(p):
      grp = t.rng.sample(arr, t.int(2, min(3, len(arr))))
      size = spec.vals[grp[0]].size
      for v in grp[1:]:
        spec.vals[v] = values(t, size)
      share.append(tuple(grp))
  return share

def skind(s):
  s = norm_scale(s)
  if isinstance(s, complex):
    return 'log' if s == 0 else 'logoff'
  return 'one' if s == 1. else 'coef'
