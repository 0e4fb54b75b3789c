""" C23: distributions are structurally sound or refused. """
import collections, importlib, math
import numpy as np
import probayes as pb
from pbmon import gen, model, walk, zoo
from pbmon.core import Skip, Violation

RULE = ('a case constructs a distribution from random names, values, axes and probabilities (or from a corrupted copy '
        'of them, or by a random history of operations, or by calling a random model) and compares every structural '
        'attribute with its contents; cases count by structure')
ASSUMPTIONS = ['probabilities given are numpy arrays or scalars of real numbers']

def sound(t, d, kind, prob=True):
  """ Every attribute agrees with the contents. """
  keys = list(d.keys())
  def ck(cond, what, msg=''):
    t.check(cond, '{}:{}'.format(kind, what), '{} {} dims={} shape={} name={!r}'.format(
        what, msg, dict(d.dims), d.shape, d.name))
  ck(d.keylist == keys and set(d.keyset) == set(keys), 'keys', d.keylist)
  ck(set(d.dims.keys()) == set(keys), 'dim-keys')
  single = []
  by_dim = {}
  for k in keys:
    v = d[k]
    one = np.ndim(v) == 0 and not isinstance(v, set) or isinstance(v, set) and len(v) == 1
    single.append(one)
    if one:
      ck(d.dims[k] is None, 'scalar-dim', k)
    else:
      ck(isinstance(v, np.ndarray) and d.dims[k] is not None and d.dims[k] >= 0, 'array-dim', k)
      by_dim.setdefault(d.dims[k], []).append(v)
  nd = len(by_dim)
  ck(sorted(by_dim) == list(range(nd)), 'dims-contiguous')
  ck(d.ndim == nd and len(d.shape) == nd, 'ndim', d.ndim)
  for i in range(nd):
    for v in by_dim[i]:
      ck(v.size == d.shape[i], 'axis-size')
      want = [1] * nd; want[i] = v.size
      ck(list(v.shape) == want, 'value-shape', v.shape)
  ck(d.size == int(np.prod([float(s) for s in d.shape])) if nd else True, 'size', d.size)
  ck(list(d.sizes) == [np.size(d[k]) for k, s in zip(keys, single) if not s], 'sizes', d.sizes)
  ck([bool(x) for x in d.aresingleton] == single and bool(d.issingleton) == all(single), 'singleton', d.aresingleton)
  ck(bool(d.singleton()) == all(single) and all(bool(d.singleton(k)) == s for k, s in zip(keys, single)), 'singleton()')
  if isinstance(d, pb.PD):
    names = list(d.marg.keys()) + list(d.cond.keys())
    ck(sorted(names) == sorted(keys), 'names', names)
    short = ','.join(d.marg.keys()) + ('|' + ','.join(d.cond.keys()) if d.cond else '')
    ck(d.short_name == short, 'short-name', d.short_name)
    left, _, right = d.name.partition('|')
    strip = lambda s: [x.split('=')[0] for x in s.split(',')] if s else []
    if not any(isinstance(v, str) for v in d.values()):
      ck(strip(left) == list(d.marg.keys()) and strip(right) == list(d.cond.keys()), 'name')
    for k, s in zip(keys, single):
      text = d.marg[k] if k in d.marg else d.cond[k]
      if s:
        ck(text == '{}={}'.format(k, d[k]), 'scalar-name', text)
    ck(isinstance(d.pscale, (float, complex)), 'pscale', d.pscale)
    if prob:
      ck(d.prob is not None, 'prob-missing')
      ck(list(np.shape(d.prob)) == list(d.shape), 'prob-shape', np.shape(d.prob))
  else:
    ck(d.short_name == ','.join(keys), 'short-name', d.short_name)

def args(t, small=False):
  """ Random valid constructor arguments. """
  names = t.rng.sample(gen.NAMES, t.int(1, 4))
  spec = gen.Spec(t, names, p_scalar=.25)
  for k in names:
    if spec.isscalar(k) and t.chance(.2): spec.vals[k] = {t.int(1, 5)}
    elif spec.isscalar(k) and t.chance(.1): spec.vals[k] = np.float64(2.5)
  share = gen.groups(t, spec, [names], p=.35)
  root = {k: g[0] for g in share for k in g}
  arr = [k for k in names if isinstance(spec.vals[k], np.ndarray) and np.ndim(spec.vals[k])]
  axes = t.shuffled(sorted({root.get(k, k) for k in arr}))
  dims = {k: (axes.index(root.get(k, k)) if k in arr else None) for k in names}
  shape = tuple(spec.vals[a].size for a in axes)
  prob = np.asarray(t.np.random(shape)) if shape else float(t.rng.random())
  cut = t.int(1, len(names))
  name = ','.join(names[:cut]) + ('|' + ','.join(names[cut:]) if names[cut:] else '')
  order = t.shuffled(names)
  vals = collections.OrderedDict((k, spec.vals[k]) for k in order)
  return names, name, vals, dims, prob, arr, axes

def construct(t):
  names, name, vals, dims, prob, arr, axes = args(t)
  given = {k: v for k, v in dims.items() if v is not None or t.chance(.5)}
  scale = gen.scale(t)
  if isinstance(gen.norm_scale(scale), complex): prob = np.log(prob)
  d = t.call('PD', pb.PD, name, vals, dims=given, prob=prob, pscale=scale)
  sound(t, d, 'construct')
  for k in names:
    t.check(d.dims[k] == dims[k], 'construct:dims', k)
    t.check(np.array_equal(np.ravel(d[k]), np.ravel(vals[k])) if k in arr else d[k] == vals[k], 'construct:value', k)
  t.check(np.array_equal(d.prob, prob), 'construct:prob')
  e = t.call('Distribution', pb.Distribution, 'anything', vals, dims=given)
  sound(t, e, 'distribution')
  # axes follow the order of values when no dimensions are given
  e = t.call('Distribution-auto', pb.Distribution, 'anything', vals)
  sound(t, e, 'distribution-auto')
  want = iter(range(9))
  t.check([e.dims[k] for k in vals] == [next(want) if k in arr else None for k in vals], 'distribution-auto:order')
  if arr and len(arr) == len(names):
    shape = tuple(np.size(v) for v in vals.values())
    f = t.call('PD-auto', pb.PD, name, vals, prob=np.ones(shape))
    sound(t, f, 'auto')
  p = t.call('PD-noprob', pb.PD, name, vals, dims=given)
  sound(t, p, 'noprob', prob=False)
  t.check(p.prob is None, 'noprob')
  t.call('PD.prob=', setattr, p, 'prob', prob)
  sound(t, p, 'assigned')
  t.cover('construct', len(names), len(arr), len(axes), '|' in name, gen.skind(scale), tuple(dims[k] for k in vals))
  t.sample(repr((name, dict(dims), np.shape(prob))))

def refuse(t):
  """ One inconsistency is introduced: the constructor must refuse. """
  names, name, vals, dims, prob, arr, axes = args(t)
  vals, dims = collections.OrderedDict(vals), dict(dims)
  sc = [k for k in names if k not in arr]
  how = t.choice(['shape', 'ndim', 'scalar-prob', 'array-prob', 'missing-dim', 'scalar-dim', '2d', 'list', 'disallowed',
                  'pscale', 'unnamed', 'unvalued', 'unequal', 'negative', 'extra', 'gap', 'name', 'bars', 'both',
                  'transposed', 'setset', 'reassign'])
  kw = {}
  if how == 'shape':
    if not axes: raise Skip()
    shape = list(np.shape(prob)); i = t.int(0, len(shape) - 1); shape[i] += t.choice([1, 2, -1 if shape[i] > 1 else 1])
    prob = np.ones(shape)
  elif how == 'ndim':
    if not axes: raise Skip()
    prob = t.choice([prob[..., None], prob[None], np.ravel(prob) if len(axes) > 1 else prob[None]])
  elif how == 'transposed':
    if len(axes) < 2 or np.shape(prob)[0] == np.shape(prob)[-1]: raise Skip()
    prob = np.swapaxes(prob, 0, -1)
  elif how == 'scalar-prob':
    if not axes: raise Skip()
    prob = t.choice([.5, np.float64(.5), np.array(.5)])
  elif how == 'array-prob':
    if axes: raise Skip()
    prob = t.choice([np.ones(1), np.ones((1, 1)), np.ones(3)])
  elif how == 'missing-dim':
    if not arr: raise Skip()
    dims.pop(t.choice(arr))
  elif how == 'scalar-dim':
    if not sc: raise Skip()
    dims[t.choice(sc)] = t.int(0, len(axes))
  elif how == '2d':
    big = [k for k in arr if np.size(vals[k]) > 1]
    if not big: raise Skip()
    k = t.choice(big); vals[k] = np.tile(np.ravel(vals[k]), (2, 1))
  elif how == 'list':
    if not arr: raise Skip()
    k = t.choice(arr); vals[k] = t.choice([list, tuple])(np.ravel(vals[k]).tolist())
    if len(vals[k]) == 0: raise Skip()
  elif how == 'setset':
    k = t.choice(names); vals[k] = {1, 2, 3}
  elif how == 'disallowed':
    k, new = t.choice(names), t.choice(['attrs', 'prob', 'pscale'])
    vals = collections.OrderedDict((new if j == k else j, v) for j, v in vals.items())
    dims = {(new if j == k else j): v for j, v in dims.items()}
    m, c = name.split('|') if '|' in name else (name, '')
    sub = lambda s: ','.join(new if j == k else j for j in s.split(','))
    name = sub(m) + ('|' + sub(c) if c else '')
  elif how == 'pscale':
    kw['pscale'] = t.choice(['linear', [1.], 'Log', {}, (2., 3.)])
  elif how == 'unnamed':
    new = 'unnamed'
    if axes and t.chance(.5):
      vals[new] = np.arange(np.shape(prob)[-1]); dims[new] = len(axes) - 1
    else:
      vals[new] = np.arange(2); dims[new] = len(axes); prob = np.stack([np.asarray(prob)] * 2, axis=-1)
    if t.chance(.3):
      vals[new] = 3.; dims[new] = None; prob = prob[..., 0] if np.ndim(prob) > len(axes) else prob
      prob = float(prob) if np.ndim(prob) == 0 else prob
  elif how == 'unvalued':
    name = t.choice(['zz,' + name, name + (',zz' if '|' in name else '|zz')])
  elif how == 'unequal':
    if not arr: raise Skip()
    k = t.choice(arr); n = np.size(vals[k])
    vals['zz'] = np.arange(n + t.choice([1, 2])) if t.chance(.5) or n < 2 else np.arange(n - 1)
    dims['zz'] = dims[k]; name = 'zz,' + name
    if t.chance(.5): vals.move_to_end('zz', last=False)
    if t.chance(.5):
      shape = list(np.shape(prob)); shape[dims[k]] = vals['zz'].size; prob = np.ones(shape)
  elif how == 'negative':
    if not arr: raise Skip()
    k = t.choice(arr)
    if dims[k] == 0 and len(axes) == 1: dims[k] = -1
    else: dims[k] = dims[k] - len(axes)
  elif how == 'extra':
    dims['zz'] = t.choice([0, len(axes), len(axes) + 1])
  elif how == 'gap':
    if not arr: raise Skip()
    dims = {k: v if v is None else v + 1 for k, v in dims.items()}
    prob = prob[None]
  elif how == 'name':
    name = t.choice([3, None, ['x'], b'x'])
  elif how == 'bars':
    name = name + ('|' + names[0] if '|' in name else '|' + names[0] + '|')
  elif how == 'both':
    name = name + (',' if '|' in name else '|') + names[0]
  elif how == 'reassign':
    d = t.call('PD', pb.PD, name, vals, dims=dims, prob=prob)
    if axes:
      bad = t.choice([.5, np.ones(np.array(np.shape(prob)) + 1), np.asarray(prob)[None]])
    else:
      bad = np.ones(2)
    t.rejects('PD.prob = {}'.format(np.shape(bad)), setattr, d, 'prob', bad, _kind='reassign')
    t.cover('refuse', how, len(arr), len(axes), np.shape(bad))
    return
  t.note('PD({!r}, {}, dims={}, prob of shape {}, {})'.format(name, dict(vals), dims, np.shape(prob), kw))
  t.rejects('PD({}) with {}'.format(name, how), pb.PD, name, vals, dims=dims, prob=prob, _kind=how, **kw)
  if how in ('missing-dim', 'scalar-dim', '2d', 'list', 'disallowed', 'unequal', 'negative', 'extra', 'gap', 'setset'):
    t.rejects('Distribution({}) with {}'.format(name, how), pb.Distribution, 'd', vals, dims=dims, _kind='D:' + how)
  t.cover('refuse', how, len(arr), len(axes))

def history(t):
  """ Every result of every operation is sound. """
  pool = walk.start(t, t.int(2, 4))
  for d in pool: sound(t, d, 'start')
  ops = []
  for _ in range(t.int(4, 12)):
    try:
      used, out, tag = t.choice(walk.OPS)(t, pool)
    except Skip:
      continue
    ops.append(tag)
    for d in used: sound(t, d, 'operand:' + tag)
    if out is not None:
      sound(t, out, 'result:' + tag)
      if np.size(out.prob) <= 2000:
        if len(pool) < 7: pool.append(out)
        else: pool[t.int(0, len(pool) - 1)] = out
  if len(ops) < 2: raise Skip()
  t.cover('history', tuple(ops))
  t.sample({'history': ops, 'pool': [repr(d) for d in pool]})

def session(t):
  """ A random workload upon models, as other checks run them. What these checks
  decide is left to them: only the distributions made count here. """
  mod = t.choice(['c12', 'c13', 'c13', 'c13', 'c14', 'c14', 'c15', 'c16', 'c21'])
  stages = importlib.import_module('pbmon.props.' + mod).STAGES
  quick = sorted(k for k in stages if stages[k][1] >= 200)     # not the long statistical ones
  name = t.choice(quick)
  covered, samples = set(t.covered), list(t.samples)
  try:
    stages[name][0](t)
  except (Violation, Skip):
    pass
  t.covered, t.samples = covered, samples
  return mod + ':' + name

def models(t):
  """ Every distribution constructed anywhere inside calls of models is sound. """
  made = []
  init = pb.PD.__init__
  def watch(self, *a, **k):
    init(self, *a, **k)
    made.append(self)
  pb.PD.__init__ = watch
  try:
    tag = session(t)
  finally:
    pb.PD.__init__ = init
  made = made[:30] + made[-30:] if len(made) > 60 else made
  t.events['check:made'] += len(made)
  for d in made:
    if len(d):
      sound(t, d, 'model:' + tag, prob=False)
      if d.prob is not None:
        t.check(list(np.shape(d.prob)) == list(d.shape), 'model:prob-shape', repr(d))
  if not made: raise Skip()
  t.cover('models', tag, tuple(sorted({tuple(d.shape) for d in made}))[:4])

STAGES = {
  'construct': (construct, 12000, 72000),
  'refuse':    (refuse, 18000, 108000),
  'history':   (history, 7500, 45000),
  'models':    (models, 1800, 10800),
}
