""" C06: expectations and quantiles. """
import collections, math
import numpy as np
import probayes as pb
from pbmon import gen, model
from pbmon.core import Skip

RULE = ('a case counts for a distinct (statistic, axis order, requested variables, exponent, shared axes, '
        'scalars, conditionals, scale kind, magnitude) structure whose every value was compared')
ASSUMPTIONS = ['the probabilities averaged over are not all zero',
               'quantiles: no conditional variables; joint quantiles follow the cumulative probability in axis order']

def make(t, deep=0., log=None, conds=True, monotonic=False, nmax=4, zeros=True):
  names = t.rng.sample(gen.NAMES, t.int(1, nmax))
  spec = gen.Spec(t, names, p_scalar=t.choice([0., 0., .2]), max_size=5, monotonic=monotonic)
  ncond = t.int(0, len(names) - 1) if conds and t.chance(.5) else 0
  cond, marg = names[:ncond], names[ncond:]
  share = gen.groups(t, spec, [marg, cond], p=.25)
  if monotonic:
    for g in share:
      for k in g: spec.vals[k] = np.sort(spec.vals[k])
  for n in names:
    if t.chance(.1) and not spec.isscalar(n):
      spec.vals[n] = np.array(spec.vals[n])[::-1].copy()
  for n in names: # integers of a type in which powers of them overflow
    if t.chance(.1) and not spec.isscalar(n) and np.asarray(spec.vals[n]).dtype.kind == 'i':
      spec.vals[n] = (np.asarray(spec.vals[n]) * 60 + 61).astype(np.int16)
  scale = gen.scale(t, log)
  dist = gen.build(t, marg, cond, spec.vals, scale, share=share, deep=deep, zeros=zeros)
  return dist, marg, cond, share

def sig(dist):
  return (tuple((dist.dims[k], k in dist.cond) for k in dist.keys()), tuple(dist.shape), gen.skind(dist.pscale))

def expectation(t, deep=0., log=None):
  dist, marg, cond, share = make(t, deep, log)
  keys = t.rng.sample(marg, t.int(1, len(marg)))
  exponent = t.choice([None, None, 0, 1, 2, 3, 2.0, -1, .5])
  if exponent in (-1, .5) and not all(np.all(np.asarray(dist[k], dtype=float) > 0) for k in keys):
    exponent = 0
  axes = sorted({dist.dims[k] for k in keys if dist.dims[k] is not None})
  rest = [d for d in range(len(dist.shape)) if d not in axes]
  lp = np.array([p for _, p in model.entries(dist)]).reshape(tuple(dist.shape))
  top = np.max(lp, axis=tuple(axes), keepdims=True) if axes else lp.max()
  if np.any(top == -math.inf):
    raise Skip()
  w = np.exp(lp - top)
  snap = gen.snapshot(dist)
  kw = {} if exponent is None else {'exponent': exponent}
  if set(keys) == set(marg) and t.chance(.5):
    got = t.call('expectation', dist.expectation, **kw)
  else:
    got = t.call('expectation', dist.expectation, keys[0] if len(keys) == 1 and t.chance(.5)
                 else t.choice([list, tuple, set])(keys), **kw)
  gen.unchanged(t, dist, snap, 'expectation:operand')
  t.check(set(got) == set(keys) | set(cond), 'expectation:keys', '{} for {}'.format(list(got), keys))
  for k in keys:
    v = np.asarray(np.ravel(dist[k]) if dist.dims[k] is not None else dist[k], dtype=float)
    v = v if exponent is None else v ** exponent
    if dist.dims[k] is None:
      t.close(got[k], v, 'expectation:scalar', k)
      continue
    shape = [1] * len(dist.shape); shape[dist.dims[k]] = -1
    v = v.reshape(shape)
    want = np.sum(w * v, axis=tuple(axes)) / np.sum(w, axis=tuple(axes))
    scale = np.max(np.abs(v)) or 1.
    t.close(got[k], want, 'expectation:value', '{} of {}'.format(k, dist), rtol=1e-8, atol=1e-8 * scale)
  for k in cond:
    t.check(np.array_equal(np.ravel(got[k]), np.ravel(dist[k])), 'expectation:cond', k)
  t.cover('expectation', sig(dist), tuple(k in keys for k in dist.keys()), exponent, deep)
  t.sample({'dist': repr(dist), 'dims': dict(dist.dims), 'keys': keys, 'exponent': exponent,
            'result': {k: np.asarray(v).tolist() for k, v in got.items()}})

def mean(t):
  expectation(t)
def mean_deep(t):
  expectation(t, t.choice([-760., -4000., -1e5]), True)

def mean_wide(t):
  a, b, c = t.rng.sample(gen.NAMES, 3)
  spec = gen.Spec(t, [a, b, c], p_scalar=0.)
  lp = -4000. * t.np.random(tuple(spec.vals[n].size for n in (a, b, c)))
  dist = gen.build(t, [a, b], [c], spec.vals, gen.scale(t, True), lp=lp, shuffle_dims=False)
  got = t.call('expectation', dist.expectation, a)
  v = np.asarray(np.ravel(dist[a]), dtype=float).reshape(-1, 1, 1)
  w = np.exp(lp - lp.max(axis=0, keepdims=True))
  t.close(got[a], np.sum(w * v, 0) / np.sum(w, 0), 'expectation:wide', rtol=1e-8,
          atol=1e-8 * (np.max(np.abs(v)) or 1.))
  t.cover('wide', lp.shape)

def monotone(v):
  v = [float(x) for x in v]
  return all(x <= y for x, y in zip(v, v[1:])) or all(x > y for x, y in zip(v, v[1:]))

def check_quantile(t, dist, cum, q, got, kind):
  n = len(cum)
  eps = 1e-9
  below = [i for i in range(n) if cum[i] < q - eps]
  above = [i for i in range(n) if cum[i] > q + eps]
  a = max(below) if below else 0
  b = min(above) if above else n - 1
  t.check(set(got) == set(dist.keys()), kind + ':keys')
  arr = {}
  for k in dist.keys():
    if dist.dims[k] is None:
      t.check(got[k] == dist[k], kind + ':scalar', k)
      continue
    v = np.ravel(dist[k])
    if v.size < 2 or not monotone(v):
      ok = isinstance(got[k], (set, frozenset)) and set(got[k]) == {v.size}
      t.check(ok or (v.size == 1 and not isinstance(got[k], set) and got[k] == v[0]), kind + ':unsorted',
              '{}: {}'.format(k, got[k]))
      continue
    arr[k] = np.asarray(v, dtype=float)
  if not arr:
    return
  last = len(dist.shape) - 1
  for r in range(a, b + 1):
    idx = np.unravel_index(r, tuple(dist.shape))
    fits = True
    for k, v in arr.items():
      i = idx[dist.dims[k]]
      if dist.dims[k] < last or i == len(v) - 1:
        fits = fits and float(got[k]) == v[i]
      else:
        lo, hi = sorted((v[i], v[i + 1]))
        tol = 1e-9 * max(abs(lo), abs(hi), 1.)
        fits = fits and lo - tol <= float(got[k]) <= hi + tol
    if fits:
      t.events['check:' + kind] += 1
      return
  t.fail(kind, 'quantile {} of {} gave {}, outside cells {}..{} (cumulative {})'.format(
      q, dist, dict(got), a, b, list(np.round(cum, 6))))

def quantile(t, deep=0., log=None):
  dist, marg, cond, share = make(t, deep, log, conds=False, monotonic=t.chance(.9), nmax=t.choice([1, 1, 2, 3]))
  qs = [t.choice([0.5, .025, .975, t.rng.random(), t.rng.random(), 1e-4, .9999]) for _ in range(t.int(1, 5))]
  if not dist.shape:
    got = t.call('quantile', dist.quantile, qs[0])
    t.check(all(got[k] == dist[k] for k in dist), 'quantile:singleton')
    many = t.call('quantile', dist.quantile, qs)
    t.check(len(many) == len(qs) and all(m[k] == dist[k] for m in many for k in dist), 'quantile:singleton')
    t.cover('quantile-singleton', len(marg)); return
  lp = np.array([p for _, p in model.entries(dist)])
  if lp.max() == -math.inf: raise Skip()
  w = np.exp(lp - lp.max())
  cum = np.cumsum(w) / w.sum()
  snap = gen.snapshot(dist)
  form = t.choice(['scalar', 'list', 'tuple', 'array'])
  if form == 'scalar':
    got = [t.call('quantile', dist.quantile, qs[0]) if qs[0] != .5 or t.chance(.5)
           else t.call('quantile', dist.quantile)]
    qs = qs[:1]
  else:
    got = t.call('quantile', dist.quantile, {'list': list, 'tuple': tuple, 'array': np.array}[form](qs))
  t.check(len(got) == len(qs), 'quantile:count', '{} for {}'.format(len(got), qs))
  gen.unchanged(t, dist, snap, 'quantile:operand')
  for q, g in zip(qs, got):
    check_quantile(t, dist, cum, q, g, 'quantile')
  # the scale and the normalisation of the probabilities do not matter
  new = gen.scale(t, True if deep else None)
  shifted = gen_shift(t, dist, new)
  alt = t.call('quantile', shifted.quantile, list(qs))
  for q, g, h in zip(qs, got, alt):
    for k in g:
      same = g[k] == h[k] if isinstance(g[k], set) else \
             abs(float(g[k]) - float(h[k])) <= 1e-6 * max(1., abs(float(g[k])))
      if not same and near_tie(dist, w, cum, q):
        break
      t.check(same, 'quantile:scale', 'q={} {}: {} at {} but {} at {}'.format(
          q, k, g[k], dist.pscale, h[k], shifted.pscale))
  t.cover('quantile', sig(dist), form, len(qs), deep)
  t.sample({'dist': repr(dist), 'q': qs, 'quantiles': [dict(g) for g in got]})

def near_tie(dist, w, cum, q):
  """ q sits on a cumulative probability, so that rounding decides the cell. """
  return bool(np.min(np.abs(cum - q)) < 1e-9)

def gen_shift(t, dist, pscale):
  """ The same distribution up to a constant factor, on another scale. """
  lp = np.array([p for _, p in model.entries(dist)]).reshape(tuple(dist.shape))
  shift = t.choice([0., 0., 1.5, -4., 3.])
  prob = gen.make_prob(lp + shift, pscale)
  vals = {k: (np.ravel(v) if dist.dims[k] is not None else v) for k, v in dist.items()}
  return t.call('PD', pb.PD, dist.name, vals, dims=dict(dist.dims), prob=prob, pscale=pscale)

def q_plain(t):
  quantile(t)
def q_deep(t):
  quantile(t, t.choice([-760., -4000., -1e5]), True)

def q_order(t):
  """ One variable: quantiles cross cell boundaries in order and span the range. """
  name = t.choice(gen.NAMES)
  n = t.int(3, 12)
  vals = {name: np.sort(gen.values(t, n, kind='float'))}
  ties = t.chance(.3)
  if ties: vals[name] = np.sort(vals[name][[t.int(0, n - 1) for _ in range(n)]])
  dist = gen.build(t, [name], [], vals, gen.scale(t))
  lp = np.array([p for _, p in model.entries(dist)])
  if lp.max() == -math.inf: raise Skip()
  w = np.exp(lp - lp.max()); cum = np.cumsum(w) / w.sum()
  qs = sorted(t.rng.random() for _ in range(8))
  got = t.call('quantile', dist.quantile, qs)
  v = np.ravel(dist[name])
  prev = None
  for q, g in zip(qs, got):
    check_quantile(t, dist, cum, q, g, 'quantile-order')
    x = float(g[name])
    t.check(v[0] - 1e-9 <= x <= v[-1] + 1e-9, 'quantile-range', '{} outside {}..{}'.format(x, v[0], v[-1]))
    if prev is not None:
      t.check(x >= prev - 1e-9, 'quantile-monotone', 'q={} gave {} below {}'.format(q, x, prev))
    prev = x
  t.cover('order', n, ties, gen.skind(dist.pscale), tuple(np.sign(np.diff(w)).astype(int)))

def refuse(t):
  a, b = t.rng.sample(gen.NAMES, 2)
  spec = gen.Spec(t, [a, b], p_scalar=.1)
  dist = gen.build(t, [a], [b], spec.vals, 1.)
  t.rejects('expectation-cond', dist.expectation, b)
  t.rejects('expectation-unknown', dist.expectation, ['zz'])
  t.cover('refuse', dist.ndim)

STAGES = {
  'mean':      (mean, 16000, 96000),
  'mean_deep': (mean_deep, 2400, 14400),
  'mean_wide': (mean_wide, 800, 4800),
  'quantile':  (q_plain, 16000, 96000),
  'q_deep':    (q_deep, 2000, 12000),
  'q_order':   (q_order, 4000, 24000),
  'refuse':    (refuse, 400, 2400),
}
