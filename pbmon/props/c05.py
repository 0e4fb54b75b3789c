""" C05: values stay attached to their probabilities under selection and relabelling. """
import collections, math
import numpy as np
import probayes as pb
from pbmon import gen, model
from pbmon.core import Skip

RULE = ('a case counts for a distinct (operation, axis order, selected positions, number of matches, shared '
        'axes, scalars, conditionals, scale kind) structure; sequences count by their list of operations')
ASSUMPTIONS = ['selections are made with scalars, as the interface demands']

def make(t, repeats=.4, nmin=1, nmax=4):
  names = t.rng.sample(gen.NAMES, t.int(nmin, nmax))
  spec = gen.Spec(t, names, p_scalar=t.choice([0., 0., .2, .4]), max_size=4)
  ncond = t.int(0, len(names) - 1) if t.chance(.5) else 0
  cond, marg = names[:ncond], names[ncond:]
  share = gen.groups(t, spec, [t.choice([names, marg])], p=.35)
  for n in names:       # repeated values
    if not spec.isscalar(n) and spec.vals[n].size > 1 and t.chance(repeats):
      v = spec.vals[n]
      v[t.int(0, v.size - 1)] = v[t.int(0, v.size - 1)]
  dist = gen.build(t, marg, cond, spec.vals, gen.scale(t), share=share)
  return dist, names, share

def sig(dist):
  return (tuple((dist.dims[k], k in dist.cond) for k in dist.keys()), tuple(dist.shape), gen.skind(dist.pscale))

def bag(entries):
  out = collections.defaultdict(list)
  for a, lp in entries:
    out[frozenset(a.items())].append(lp)
  return {k: sorted(v) for k, v in out.items()}

def same_bag(t, dist, want, kind, marg=None, cond=None):
  model.layout_ok(t, dist, kind)
  got, want = bag(model.entries(dist)), bag(want)
  t.check({k: len(v) for k, v in got.items()} == {k: len(v) for k, v in want.items()},
          kind + ':assignments', 'got {} want {}'.format(list(got)[:3], list(want)[:3]))
  for k in want:
    for x, y in zip(got[k], want[k]):
      if not model.near(x, y):
        t.fail(kind + ':value', 'at {}: {} should be {}'.format(dict(k), x, y))
    t.events['check:' + kind + ':value'] += len(want[k])
  if marg is not None:
    t.check(set(dist.marg) == set(marg) and set(dist.cond) == set(cond), kind + ':roles',
            '{} for {}|{}'.format(dist.name, marg, cond))

def tid(v):
  return model.tidy(v)

def pick(t, dist):
  keys = [k for k in dist.keys() if dist.dims[k] is not None]
  if not keys:
    raise Skip()
  sel = collections.OrderedDict()
  for k in t.rng.sample(keys, t.int(1, min(3, len(keys)))):
    if t.chance(.12):
      sel[k] = 999
    else:
      sel[k] = t.choice(list(np.ravel(dist[k])))
      if t.chance(.3): sel[k] = sel[k].item()
  return sel

def chosen(entries, sel):
  return [(a, lp) for a, lp in entries if all(a[k] == tid(v) for k, v in sel.items())]

def do_select(t, dist, sel=None, keepdims=None):
  sel = sel or pick(t, dist)
  keepdims = t.chance(.25) if keepdims is None else keepdims
  ents = model.entries(dist)
  t.note('select {} keepdims={} from dims {}'.format(dict(sel), keepdims, dict(dist.dims)))
  out = t.call('select', dist, dict(sel), **({'keepdims': True} if keepdims else {}))
  same_bag(t, out, chosen(ents, sel), 'select', dist.marg, dist.cond)
  t.check(out.pscale == dist.pscale, 'select:scale')
  # a unique selection is a scalar, and so is whatever shares its axis
  by_dim = {}
  for k, v in sel.items():
    m = np.array([tid(x) == tid(v) for x in np.ravel(dist[k])])
    by_dim[dist.dims[k]] = by_dim.get(dist.dims[k], True) & m
  for k in dist.keys():
    d = dist.dims[k]
    if d in by_dim and d is not None:
      n = int(by_dim[d].sum())
      if n == 1 and not keepdims:
        t.check(out.dims[k] is None, 'select:scalar', '{} not made scalar'.format(k))
      else:
        t.check(out.dims[k] is not None and np.size(out[k]) == n, 'select:array',
                '{} should keep {} values: {}'.format(k, n, out[k]))
        want = [tid(x) for x, m in zip(np.ravel(dist[k]), by_dim[d]) if m]
        t.check([tid(x) for x in np.ravel(out[k])] == want, 'select:order')
    elif d is not None:
      t.check([tid(x) for x in np.ravel(out[k])] == [tid(x) for x in np.ravel(dist[k])], 'select:rest')
  labels = {**out.marg, **out.cond}
  for k in sel:
    if out.dims[k] is None:
      t.check('=' in labels[k], 'select:label', '{} after {}'.format(out.name, dict(sel)))
  for k in out.keys():
    if dist.dims[k] not in by_dim: t.check(labels[k] == {**dist.marg, **dist.cond}[k], 'select:label', '{} from {}'.format(out.name, dist.name))
  return out, tuple(sorted((int(m.sum()) for m in by_dim.values())))

def select(t):
  dist, names, share = make(t)
  snap = gen.snapshot(dist)
  sel = pick(t, dist)
  out, n = do_select(t, dist, sel)
  gen.unchanged(t, dist, snap, 'select:operand')
  t.cover('select', sig(dist), tuple(dist.dims[k] for k in sel), n)
  t.sample({'dist': repr(dist), 'dims': dict(dist.dims), 'select': dict(sel), 'result': repr(out)})
  # key order in the request is immaterial
  if len(sel) > 1:
    alt = t.call('select', dist, dict(reversed(list(sel.items()))))
    same_bag(t, alt, chosen(model.entries(dist), sel), 'select-reversed', dist.marg, dist.cond)
  if t.chance(.1):
    t.rejects('select-unknown', dist, {'zz': 1})

def do_sort(t, dist, key=None):
  key = key or t.choice(list(dist.keys()))
  ents = model.entries(dist)
  out = t.call('sorted', dist.sorted, key)
  same_bag(t, out, ents, 'sorted', dist.marg, dist.cond)
  if dist.dims[key] is not None:
    v = [tid(x) for x in np.ravel(out[key])]
    t.check(v == sorted(v), 'sorted:order', 'not sorted: {}'.format(v))
  for k in dist.keys():
    if dist.dims[k] is not None and dist.dims[k] != dist.dims[key]:
      t.check([tid(x) for x in np.ravel(out[k])] == [tid(x) for x in np.ravel(dist[k])], 'sorted:rest')
  return out

def do_redim(t, dist):
  axes = list(range(dist.ndim)) if dist.ndim else []
  perm = t.shuffled(axes)
  keys = t.shuffled(dist.keys())
  dims = collections.OrderedDict((k, None if dist.dims[k] is None else perm[dist.dims[k]]) for k in keys)
  if t.chance(.3):       # scalars need not be listed
    for k in [k for k in dims if dims[k] is None]:
      dims.pop(k)
    if not dims: raise Skip()
  ents = model.entries(dist)
  out = t.call('redim', dist.redim, dims)
  same_bag(t, out, ents, 'redim', dist.marg, dist.cond)
  for k in dims:
    t.check(out.dims[k] == dims[k], 'redim:dims', '{} asked {}'.format(dict(out.dims), dict(dims)))
  return out

def do_rekey(t, dist):
  keys = list(dist.keys())
  old = t.rng.sample(keys, t.int(1, len(keys)))
  mode = t.choice(['new', 'new', 'swap'])
  if mode == 'swap' and len(old) > 1:
    new = old[1:] + old[:1]
  else:
    new = t.rng.sample(['n1', "p'", 'q_2', 'zz'], len(old)) if len(old) <= 4 else None
  if new is None: raise Skip()
  m = dict(zip(old, new))
  if any(v in keys and v not in m for v in new): raise Skip()
  ents = [({m.get(k, k): v for k, v in a.items()}, lp) for a, lp in model.entries(dist)]
  out = t.call('rekey', dist.rekey, m)
  same_bag(t, out, ents, 'rekey', [m.get(k, k) for k in dist.marg], [m.get(k, k) for k in dist.cond])
  for k in keys:
    t.check(out.dims[m.get(k, k)] == dist.dims[k], 'rekey:dims')
  t.check(list(out.marg) == [m.get(k, k) for k in dist.marg], 'rekey:order')
  return out

def do_lookup(t, dist):
  keys = t.rng.sample(list(dist.keys()), t.int(1, len(dist)))
  mode = t.choice(['keys', 'marg', 'cond', 'dist'])
  if mode == 'keys':
    got = t.call('lookup', dist.lookup, t.choice([list, set, tuple])(keys))
  elif mode == 'dist':
    got = t.call('lookup-dist', dist.lookup, keys, as_dist=True)
    t.check(set(got.keys()) == set(keys), 'lookup-dist:keys', '{} for {}'.format(list(got), keys))
    for k in keys:
      t.check((got.dims[k] is None) == (dist.dims[k] is None) and
              [tid(x) for x in np.ravel(got[k])] == [tid(x) for x in np.ravel(dist[k])]
              if dist.dims[k] is not None else tid(got[k]) == tid(dist[k]), 'lookup-dist:values')
      for j in keys:
        t.check((got.dims[k] == got.dims[j]) == (dist.dims[k] == dist.dims[j]), 'lookup-dist:dims')
    return dist
  else:
    keys = list(dist.marg if mode == 'marg' else dist.cond)
    if not keys: raise Skip()
    got = t.call('lookup', dist, mode)
  flat = {}
  for k, v in got.items():
    parts = k.split(',')
    if len(parts) > 1:
      t.check(isinstance(v, tuple) and len(v) == len(parts), 'lookup:group', k)
      t.check(len({dist.dims[p] for p in parts}) == 1, 'lookup:group', k)
      for p, x in zip(parts, v): flat[p] = x
    else:
      flat[k] = v
  t.check(set(flat) == set(keys), 'lookup:keys', '{} for {}'.format(set(flat), keys))
  for k in keys:
    if dist.dims[k] is None:
      t.check(tid(flat[k]) == tid(dist[k]), 'lookup:values')
    else:
      t.check([tid(x) for x in np.ravel(flat[k])] == [tid(x) for x in np.ravel(dist[k])], 'lookup:values')
  return dist

OPS = {'sort': do_sort, 'redim': do_redim, 'rekey': do_rekey, 'lookup': do_lookup,
       'select': lambda t, d: do_select(t, d)[0]}

def single(t):
  dist, names, share = make(t)
  op = t.choice(['sort', 'redim', 'rekey', 'lookup'])
  snap = gen.snapshot(dist)
  OPS[op](t, dist)
  gen.unchanged(t, dist, snap, op + ':operand')
  for k in dist.keys():
    t.check(bool(t.call('singleton', dist.singleton, k)) == (dist.dims[k] is None), 'singleton', k)
  t.check(bool(t.call('singleton', dist.singleton)) == (not dist.shape), 'singleton')
  t.cover(op, sig(dist))

def sequence(t):
  """ Histories of operations keep every entry where it belongs. """
  dist, names, share = make(t, nmin=2)
  ops = []
  for _ in range(t.int(2, 5)):
    op = t.choice(list(OPS))
    if op == 'select' and (not dist.shape or dist.size == 0):
      continue
    if dist.size == 0 and dist.shape: break
    try:
      dist = OPS[op](t, dist)
    except Skip:
      continue
    ops.append(op)
  t.cover('sequence', tuple(ops), len(names), len(share))

def refuse(t):
  dist, names, share = make(t, nmin=2)
  what = t.choice(['duplicate', 'missing', 'array'])
  keys = list(dist.keys())
  if what == 'duplicate':
    a, b = t.rng.sample(keys, 2)
    t.rejects('rekey-duplicate', dist.rekey, {a: b})
  elif what == 'missing':
    arr = [k for k in keys if dist.dims[k] is not None]
    if not arr: raise Skip()
    drop = t.choice(arr)
    t.rejects('redim-missing', dist.redim, {k: dist.dims[k] for k in keys if k != drop})
  else:
    arr = [k for k in keys if dist.dims[k] is not None]
    if not arr: raise Skip()
    t.rejects('select-array', dist, {arr[0]: np.array([1, 2])})
  t.cover('refuse', what, sig(dist))

STAGES = {
  'select':   (select, 16000, 96000),
  'single':   (single, 16000, 96000),
  'sequence': (sequence, 4800, 28800),
  'refuse':   (refuse, 1600, 9600),
}
