""" C09: saving and loading distributions restores them exactly. """
import collections, math, os, tempfile
import numpy as np
import probayes as pb
from probayes.pd_utils import serialise, deserialise, write_dist, read_dist, write_serialised, read_serialised
from pbmon import gen, model
from pbmon.core import Skip

RULE = ('a case counts for a distinct (medium, batch size, kinds of distributions: PD or plain, axis order, scalars, '
        'sample sets, conditionals, shared axes, scale) combination whose every field was compared')
ASSUMPTIONS = ['names without "/" (the HDF5 path separator)', 'distributions written together have different short names']

def scratch():
  base = os.environ.get('PBMON_WORK') or tempfile.gettempdir()
  return tempfile.mkdtemp(dir=base)

def make(t, used):
  for _ in range(20):
    pool = gen.NAMES + ["x'", 'order'] if t.chance(.2) else gen.NAMES
    names = t.rng.sample(pool, t.int(1, 4))
    ncond = t.int(0, len(names) - 1) if t.chance(.5) else 0
    cond, marg = names[:ncond], names[ncond:]
    short = ','.join(marg) + ('|' + ','.join(cond) if cond else '')
    if short not in used: break
  else:
    raise Skip()
  used.add(short)
  spec = gen.Spec(t, names, p_scalar=t.choice([0., .2, .5, 1.]), max_size=4)
  share = gen.groups(t, spec, [names], p=.3)
  scale = t.choice(gen.SCALES + [complex(2., math.pi)])
  vals = dict(spec.vals)
  dist = gen.build(t, marg, cond, vals, scale, share=share)
  if t.chance(.3):       # collapse something into a sample set
    arr = [k for k in dist.marg if dist.dims[k] is not None]
    if arr:
      d = dist.dims[t.choice(arr)]
      grp = [k for k in dist.keys() if dist.dims[k] == d]
      if all(k in dist.marg for k in grp):
        dist = t.call('prod', dist.prod, grp)
  if t.chance(.25):
    plain = t.call('Distribution', pb.Distribution, ','.join(dist.keys()),
                   {k: (np.ravel(v) if dist.dims[k] is not None else v) for k, v in dist.items()},
                   dims=dict(dist.dims))
    return plain, plain.short_name
  return dist, dist.short_name

def kind(d):
  return (type(d).__name__, tuple((d.dims[k], isinstance(d[k], set)) for k in d.keys()),
          gen.skind(d.pscale) if isinstance(d, pb.PD) else None,
          len(d.cond) if isinstance(d, pb.PD) else None)

def snap(d):
  if isinstance(d, pb.PD):
    return gen.snapshot(d)
  return (d.name, list(d.keys()), [np.array(v, copy=True) if isinstance(v, np.ndarray) else v
                                   for v in d.values()], dict(d.dims), list(d.shape))

def same(t, got, want, tag):
  t.check(type(got) is type(want), tag + ':type', '{} {}'.format(type(got), type(want)))
  t.check(list(got.keys()) == list(want.keys()), tag + ':keys', '{} {}'.format(list(got), list(want)))
  t.check({k: (None if d is None else int(d)) for k, d in got.dims.items()} == dict(want.dims), tag + ':dims',
          '{} {}'.format(dict(got.dims), dict(want.dims)))
  t.check(list(got.shape) == list(want.shape), tag + ':shape')
  for k in want.keys():
    u, v = got[k], want[k]
    if isinstance(v, set):
      t.check(isinstance(u, set) and u == v, tag + ':set', '{} {}'.format(u, v))
    else:
      t.check(np.shape(u) == np.shape(v) and np.array_equal(np.asarray(u), np.asarray(v)), tag + ':values',
              '{}: {} {}'.format(k, u, v))
      t.check(np.asarray(u).dtype == np.asarray(v).dtype, tag + ':dtype',
              '{}: {} {}'.format(k, np.asarray(u).dtype, np.asarray(v).dtype))
  if isinstance(want, pb.PD):
    t.check(list(got.marg) == list(want.marg) and list(got.cond) == list(want.cond), tag + ':roles',
            '{} {}'.format(got.name, want.name))
    t.check(np.shape(got.prob) == np.shape(want.prob) and
            np.array_equal(np.asarray(got.prob), np.asarray(want.prob)), tag + ':prob',
            '{} {}'.format(got.prob, want.prob))
    t.check(got.pscale == want.pscale and isinstance(got.pscale, complex) == isinstance(want.pscale, complex),
            tag + ':pscale', '{} {}'.format(got.pscale, want.pscale))
    model.layout_ok(t, got, tag)

def batch(t):
  used, dists = set(), []
  names = set()
  for _ in range(t.int(1, 4) if not t.chance(.05) else t.int(11, 14)):
    d, n = make(t, used)
    if n in names: continue
    names.add(n); dists.append(d)
  return dists

def unchanged(t, dists, snaps, tag):
  for d, s in zip(dists, snaps):
    if isinstance(d, pb.PD):
      gen.unchanged(t, d, s, tag)
    else:
      now = snap(d)
      t.check(now[0] == s[0] and now[1] == s[1] and now[3:] == s[3:] and
              all(np.array_equal(u, v) if isinstance(u, np.ndarray) else u == v for u, v in zip(now[2], s[2])),
              tag, 'distribution changed by writing: {} {}'.format(s, now))

def dictionary(t):
  dists = batch(t)
  snaps = [snap(d) for d in dists]
  ser = t.call('serialise', serialise, *dists)
  t.check(isinstance(ser, dict) and len(ser) == len(dists), 'serialise:count', str(list(ser)))
  back = t.call('deserialise', deserialise, ser)
  t.check(len(back) == len(dists), 'deserialise:count')
  for got, want in zip(back, dists):
    same(t, got, want, 'dict')
  unchanged(t, dists, snaps, 'dict:operand')
  # twice from the same dictionary
  again = t.call('deserialise', deserialise, ser)
  for got, want in zip(again, dists):
    same(t, got, want, 'dict-again')
  t.cover('dict', tuple(kind(d) for d in dists))

def hdf(t):
  dists = batch(t)
  snaps = [snap(d) for d in dists]
  tmp = scratch()
  path = os.path.join(tmp, 'd.h5')
  try:
    order = t.shuffled(dists)
    mode = t.choice(['dist', 'dist', 'aux', 'twice'])
    if mode == 'aux':
      aux = {'my aux': {'u': t.np.normal(size=(2, 3)), 'v': np.arange(3)}, 'b c': {'w': np.array([True, False])}}
      t.call('write_serialised', write_serialised, path, serialise(*order), aux)
      ser, got_aux = t.call('read_serialised', read_serialised, path)
      t.check(set(got_aux) == set(aux) and all(set(got_aux[k]) == set(aux[k]) and all(
          np.array_equal(got_aux[k][j], aux[k][j]) for j in aux[k]) for k in aux), 'aux', str(got_aux))
      back = t.call('deserialise', deserialise, ser)
    else:
      t.call('write_dist', write_dist, path, *order)
      if mode == 'twice':
        unchanged(t, dists, snaps, 'hdf:operand')
        t.call('write_dist', write_dist, path, *order)
      back = t.call('read_dist', read_dist, path)
    t.check(len(back) == len(dists), 'hdf:count', '{} of {}'.format(len(back), len(dists)))
    by = {d.short_name: d for d in back}
    for want in dists:
      t.check(want.short_name in by, 'hdf:name', '{} not in {}'.format(want.short_name, list(by)))
      same(t, by[want.short_name], want, 'hdf')
    unchanged(t, dists, snaps, 'hdf:operand')
    # what comes back is usable: write it again
    p2 = os.path.join(tmp, 'e.h5')
    t.call('write_dist', write_dist, p2, *back)
    for got in t.call('read_dist', read_dist, p2):
      same(t, got, next(d for d in dists if d.short_name == got.short_name), 'hdf-second')
    for d in back:
      if isinstance(d, pb.PD) and not any(isinstance(v, set) for v in d.values()):
        want = next(x for x in dists if x.short_name == d.short_name)
        model.agree(t, t.call('rescaled', d.rescaled, 'log'), model.read(want), 'hdf-use') \
            if len({frozenset(a.items()) for a, _ in model.entries(want)}) == np.asarray(want.prob).size else None
    t.cover('hdf', mode, tuple(kind(d) for d in dists))
    t.sample({'written': [repr(d) for d in order], 'read': [repr(d) for d in back]})
  finally:
    for f in os.listdir(tmp): os.remove(os.path.join(tmp, f))
    os.rmdir(tmp)

def clash(t):
  """ Two distributions with one name are not silently merged. """
  a, b = t.rng.sample(gen.NAMES, 2)
  spec = gen.Spec(t, [a, b], p_scalar=.2)
  marg, cond = ([a], [b]) if t.chance(.5) else ([a, b], [])
  d1 = gen.build(t, marg, cond, spec.vals, 1.)
  d2 = gen.build(t, marg, cond, spec.vals, gen.scale(t))
  try:
    ser = serialise(d1, d2)
  except Exception:
    t.events['reject:serialise-clash'] += 1
  else:
    back = t.call('deserialise', deserialise, ser)
    t.check(len(back) == 2, 'clash', 'two distributions written, {} read'.format(len(back)))
  t.rejects('serialise-type', serialise, {'x': 1})
  t.cover('clash', len(cond), d1.ndim)

STAGES = {
  'dictionary': (dictionary, 6000, 36000),
  'hdf':        (hdf, 4500, 27000),
  'clash':      (clash, 180, 1080),
}
