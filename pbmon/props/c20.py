""" C20: concatenation keeps every entry once and in order. """
import collections, math
import numpy as np
import probayes as pb
from pbmon import gen, model
from pbmon.core import Skip

RULE = ('a case counts for a distinct (number of operands, singleton or array, axis order, shared axes, '
        'conditionals, scale kind, concatenated axis) structure whose every entry was compared in order')
ASSUMPTIONS = ['array operands agree in all but one axis, as documented']

def singles(t):
  names = t.rng.sample(gen.NAMES, t.int(1, 4))
  cut = t.int(1, len(names))
  n = t.int(1, 6) if not t.chance(.1) else t.int(7, 25)
  scale = gen.scale(t)
  sets = [k for k in names if t.chance(.15)]
  if len(sets) == len(names): sets = sets[1:]
  dists, counts = [], {k: 0 for k in sets}
  kinds = {k: t.choice(['int', 'float', 'bool']) for k in names}
  for _ in range(n):
    vals = {}
    for k in names:
      if k in sets:
        c = t.int(1, 5); counts[k] += c; vals[k] = {c}
      else:
        vals[k] = {'int': t.int(-3, 3), 'float': t.rng.random(), 'bool': t.chance(.5)}[kinds[k]]
    dists.append(gen.build(t, names[:cut], names[cut:], vals, scale))
  snaps = [gen.snapshot(d) for d in dists]
  out = t.call('summate', pb.summate, *dists) if n != 2 or t.chance(.5) else \
        t.call('PD+PD', lambda: dists[0] + dists[1])
  model.layout_ok(t, out, 'singles')
  t.check(set(out.keys()) == set(names) and list(out.marg) == names[:cut] and list(out.cond) == names[cut:],
          'singles:roles', out.name)
  t.check(out.pscale == dists[0].pscale, 'singles:scale')
  t.check(np.shape(out.prob) == (n,), 'singles:count', '{} entries of {}'.format(np.shape(out.prob), n))
  ents = model.entries(out)
  for i, d in enumerate(dists):
    a, lp = ents[i]
    for k in names:
      if k in sets:
        t.check(out[k] == {counts[k]}, 'singles:set', '{} {}'.format(out[k], counts))
      else:
        t.check(a[k] == model.tidy(d[k]), 'singles:value', 'entry {} {}: {} {}'.format(i, k, a[k], d[k]))
    t.check(model.near(lp, model.entries(d)[0][1], 1e-12), 'singles:prob', 'entry {}'.format(i))
  for d, s in zip(dists, snaps):
    gen.unchanged(t, d, s, 'operand')
  t.cover('singles', n, cut, len(names), len(sets), gen.skind(scale), tuple(kinds.values()))
  t.sample({'operands': [repr(d) for d in dists], 'result': {k: np.asarray(v).tolist() if not isinstance(v, set) else v
                                                           for k, v in out.items()}})

def blocks(t):
  """ Pieces of one distribution along an axis put together again. """
  names = t.rng.sample(gen.NAMES, t.int(1, 4))
  cut = t.int(1, len(names))
  spec = gen.Spec(t, names, p_scalar=.15, max_size=5)
  share = gen.groups(t, spec, [names], p=.3)
  if all(spec.isscalar(k) for k in names): raise Skip()
  whole = gen.build(t, names[:cut], names[cut:], spec.vals, gen.scale(t), share=share)
  ax = t.int(0, len(whole.shape) - 1)
  size = whole.shape[ax]
  if size < 2: raise Skip()
  nb = t.int(2, min(3, size))
  cuts = [0] + sorted(t.rng.sample(range(1, size), nb - 1)) + [size]
  parts = []
  for lo, hi in zip(cuts, cuts[1:]):
    vals = collections.OrderedDict()
    for k in whole.keys():
      v = whole[k]
      vals[k] = v if whole.dims[k] is None else np.ravel(v)[lo:hi] if whole.dims[k] == ax else np.ravel(v)
    parts.append(t.call('PD', pb.PD, whole.name, vals, dims=dict(whole.dims),
                        prob=np.take(whole.prob, range(lo, hi), axis=ax), pscale=whole.pscale))
  snaps = [gen.snapshot(d) for d in parts]
  moved = False
  if len(whole.shape) > 1 and t.chance(.4):
    # operands may hold their axes in different orders
    i = t.int(1, nb - 1)
    perm = t.shuffled(range(len(whole.shape)))
    p = parts[i]
    vals = {k: (np.ravel(v) if p.dims[k] is not None else v) for k, v in p.items()}
    parts[i] = t.call('PD', pb.PD, p.name, vals, dims={k: None if d is None else perm[d] for k, d in p.dims.items()},
                      prob=np.moveaxis(p.prob, range(len(perm)), perm), pscale=p.pscale)
    snaps[i] = gen.snapshot(parts[i])
    moved = True
  out = t.call('summate', pb.summate, *parts) if nb != 2 or t.chance(.5) else \
        t.call('PD+PD', lambda: parts[0] + parts[1])
  model.agree(t, out, model.read(whole), 'blocks')
  t.check(list(out.marg) == names[:cut] and list(out.cond) == names[cut:], 'blocks:roles')
  for k in whole.keys():
    if whole.dims[k] is not None:
      t.check(np.array_equal(np.ravel(out[k]), np.ravel(whole[k])), 'blocks:order', k)
  for d, s in zip(parts, snaps):
    gen.unchanged(t, d, s, 'operand')
  t.cover('blocks', tuple((whole.dims[k], k in whole.cond) for k in whole.keys()), ax, nb, gen.skind(whole.pscale), moved)

def refuse(t):
  a, b, c = t.rng.sample(gen.NAMES, 3)
  spec = gen.Spec(t, [a, b, c], p_scalar=t.choice([0., 1.]))
  what = t.choice(['scale', 'marg', 'cond', 'mixed', 'two', 'roles', 'joint'])
  p = gen.build(t, [a], [b], spec.vals, 1.)
  if what == 'scale':
    q = gen.build(t, [a], [b], spec.vals, t.choice(['log', 2., complex(1., 0.)]))
  elif what == 'marg':
    q = gen.build(t, [c], [b], spec.vals, 1.)
  elif what == 'cond':
    q = gen.build(t, [a], t.choice([[c], []]), spec.vals, 1.)
  elif what == 'roles':
    q = gen.build(t, [b], [a], spec.vals, 1.)
  elif what == 'joint':
    q = gen.build(t, [a, b] if t.chance(.5) else [b, a], [], spec.vals, 1.)
  else:
    vals = {a: np.array([1., 2., 3.]), b: np.array([4., 5.])}
    p = gen.build(t, [a], [b], vals, 1.)
    if what == 'mixed':
      q = gen.build(t, [a], [b], {a: 1., b: 4.}, 1.)
    else:
      q = gen.build(t, [a], [b], {a: vals[a] + 10, b: vals[b] + 10}, 1.)
  pair = [p, q] if t.chance(.5) else [q, p]
  t.rejects('summate-' + what, pb.summate, *pair)
  t.cover('refuse', what, p.ndim, pair[0] is p)

STAGES = {
  'singles': (singles, 12000, 72000),
  'blocks':  (blocks, 12000, 72000),
  'refuse':  (refuse, 1600, 9600),
}
