""" C08: iid products over a dimension. """
import collections, math
import numpy as np
import probayes as pb
from pbmon import gen, model
from pbmon.core import Skip

RULE = ('a case counts for a distinct (collapsed positions, axis order, shared axes, scalars, conditionals, '
        'scale kind, number of batches) structure whose every cell was compared')
ASSUMPTIONS = ['variables sharing an axis are collapsed together']

def reference(dist, keys):
  """ Multiply all entries that agree outside keys; keys become sample counts. """
  groups = collections.OrderedDict()
  for a, lp in model.entries(dist):
    rest = frozenset((k, v) for k, v in a.items() if k not in keys)
    groups.setdefault(rest, []).append(lp)
  sizes = {k: ('set', np.size(dist[k])) for k in keys}
  return model.Table(list(dist.marg), list(dist.cond), {
      frozenset(set(rest) | set(sizes.items())): (-math.inf if -math.inf in v else math.fsum(v))
      for rest, v in groups.items()})

def make(t, deep=0., log=None):
  names = t.rng.sample(gen.NAMES, t.int(1, 4))
  ncond = t.int(0, len(names) - 1) if t.chance(.6) else 0
  cond, marg = names[:ncond], names[ncond:]
  spec = gen.Spec(t, names, p_scalar=t.choice([0., 0., .2]), max_size=5)
  arr = [m for m in marg if not spec.isscalar(m)]
  if not arr: raise Skip()
  keys = t.rng.sample(arr, t.int(1, len(arr)))
  share = gen.groups(t, spec, [keys, [m for m in marg if m not in keys], cond], p=.3)
  # samples may repeat
  for k in keys:
    if t.chance(.4): spec.vals[k][:] = spec.vals[k][0]
  scale = gen.scale(t, log)
  return gen.build(t, marg, cond, spec.vals, scale, share=share, deep=deep), keys, share, spec

def collapse(t, deep=0., log=None):
  dist, keys, share, spec = make(t, deep, log)
  want = reference(dist, keys)
  snap = gen.snapshot(dist)
  n = int(np.prod([dist.shape[d] for d in {dist.dims[k] for k in keys}]))
  if not isinstance(dist.pscale, complex) and abs(math.log(dist.pscale)) * n > 600: raise Skip()
  out = t.call('prod', dist.prod, keys[0] if len(keys) == 1 and t.chance(.5)
               else t.choice([list, tuple, set])(keys))
  model.agree(t, out, want, 'prod', tol=1e-8)
  for k in keys:
    t.check(out[k] == {np.size(dist[k])}, 'prod:count', '{} collapsed to {}'.format(k, out[k]))
  gen.unchanged(t, dist, snap, 'operand')
  t.cover('collapse', tuple((dist.dims[k], k in keys, k in dist.cond) for k in dist), tuple(dist.shape),
          gen.skind(dist.pscale), deep)
  t.sample({'dist': repr(dist), 'dims': dict(dist.dims), 'keys': keys, 'result': repr(out), 'pscale': out.pscale})

def plain(t): collapse(t)
def deep(t): collapse(t, t.choice([-400., -2000.]), True)

def batches(t):
  """ Collapsing batches and multiplying equals collapsing all at once. """
  nm = t.int(1, 2)
  names = t.rng.sample(gen.NAMES, nm + t.int(0, 2))
  marg, cond = names[:nm], names[nm:]
  spec = gen.Spec(t, names, p_scalar=0., max_size=4)
  for c in cond:
    if t.chance(.2): spec.vals[c] = gen.scalar(t)
  nb = t.int(2, 3) if not t.chance(.1) else t.int(4, 12)
  sizes = [t.int(1, 4) for _ in range(nb)]
  scale = gen.scale(t)
  zero = t.chance(.2)
  style = t.choice(['plain', 'eq'])
  permute = t.chance(.5)
  parts, want = [], None
  tables = []
  for s in sizes:
    vals = dict(spec.vals)
    for m in marg: vals[m] = np.sort(t.np.normal(size=s))
    share = [tuple(marg)] if nm > 1 else []
    d = gen.build(t, marg, cond, vals, scale if t.chance(.8) else gen.scale(t), share=share, zeros=zero,
                  style=style, shuffle_dims=permute)
    tables.append(reference(d, marg))
    parts.append(t.call('prod', d.prod, marg))
  out = t.call('product', pb.product, *parts) if nb > 2 or t.chance(.5) else \
        t.call('PD*PD', lambda: parts[0] * parts[1])
  cells = {}
  for tab in tables:
    for k, lp in tab.cells.items():
      rest = frozenset((n, v) for n, v in k if n in cond)
      cells[rest] = cells.get(rest, 0.) + lp
  cells = {frozenset(set(k) | {(m, ('set', sum(sizes))) for m in marg}): v for k, v in cells.items()}
  model.agree(t, out, model.Table(marg, cond, cells), 'batches', tol=1e-8, strict=False)
  t.cover('batches', nm, len(cond), nb, gen.skind(scale), permute, tuple(out.dims.values()),
          tuple(tuple(p.dims.values()) for p in parts))

def refuse(t):
  a, b, c = t.rng.sample(gen.NAMES, 3)
  spec = gen.Spec(t, [a, b, c], p_scalar=0.)
  spec.vals[b] = 2
  dist = gen.build(t, [a, b], [c], spec.vals, 1.)
  t.rejects('prod-cond', dist.prod, c)
  t.rejects('prod-scalar', dist.prod, [a, b])
  t.rejects('prod-unknown', dist.prod, 'zz')
  t.cover('refuse', tuple(dist.dims.values()))

STAGES = {
  'plain':   (plain, 16000, 96000),
  'deep':    (deep, 2000, 12000),
  'batches': (batches, 8000, 48000),
  'refuse':  (refuse, 400, 2400),
}
