""" C10: variables only yield values in their domain and recognise it. """
import math
import numpy as np
import scipy.stats
import probayes as pb
from pbmon import gen, zoo
from pbmon.core import Skip

RULE = ('a case declares a random variable (type, set in any spelling, open/closed/infinite limits, transformation) and '
        'compares attributes, membership, grids and samples with the declaration; cases count by declaration and request')
ASSUMPTIONS = ['sets contain no repeated values; transformations are monotonic and invertible on the set',
               'random samples are judged by tests with a false-alarm probability below 1e-9 each']
P = 1e-9

def declare(t):
  r = zoo.ref(t, finite=False)
  v = zoo.build(t, 'x', r)
  t.check(v.vtype is {'bool': bool, 'int': int, 'float': float}[r.kind], 'vtype', repr(v.vtype))
  t.check(v.name == 'x', 'name')
  if r.kind != 'float':
    t.check(list(v.vset) == list(r.vals) and all(type(a) is type(b) for a, b in zip(v.vset, r.vals)), 'vset', repr(v.vset))
    t.check(list(v.vlims) == [min(r.vals), max(r.vals)], 'vlims', repr(v.vlims))
  else:
    t.close(v.vlims, [r.lo, r.hi], 'vlims', rtol=0., atol=0.)
    t.check([isinstance(e, tuple) for e in v.vset] == list(r.open), 'vset-open', repr(v.vset))
    t.close(sorted(v.ulims), sorted([float(r.fwd(r.lo)), float(r.fwd(r.hi))]), 'ulims', rtol=1e-12)
    t.check(bool(v.isfinite) == r.finite, 'isfinite', repr(v.isfinite))
  t.close(v.length, r.length, 'length', rtol=1e-9)
  t.close(v.lhv, math.log(r.length) if math.isfinite(r.length) else math.inf, 'lhv', rtol=1e-9, atol=1e-12)
  # membership
  xs = []
  for _ in range(t.int(1, 8)):
    x = r.pick(t, t.chance(.6))
    if x is not None: xs.append(x)
  if r.kind == 'float':
    for lim, up in ((r.lo, 1), (r.hi, -1)):
      if math.isfinite(lim):
        xs += [lim, np.nextafter(lim, -math.inf), np.nextafter(lim, math.inf)]
  elif r.kind == 'int':
    xs += [min(r.vals) - 1, max(r.vals) + 1]
  xs += t.shuffled(xs)[:t.int(0, 3)]
  for x in xs:
    t.check(bool(v.inside(x)) == r.inside(x), 'inside', '{} in {}'.format(x, r))
    t.check((x in v) == r.inside(x), 'contains', '{} in {}'.format(x, r))
  got = t.call('inside', v.inside, np.array(xs))
  t.check(np.array_equal(got, [r.inside(x) for x in xs]), 'inside-array', '{} in {}: {}'.format(xs, r, got))
  got = t.call('inside', v.inside, np.array(xs).reshape(-1, 1))
  t.check(np.array_equal(np.ravel(got), [r.inside(x) for x in xs]), 'inside-2d', '{} in {}: {}'.format(xs, r, got))
  t.cover('declare', r.sig(), len(xs))
  t.sample('{}: {}'.format(r, [(x, bool(v.inside(x))) for x in xs[:6]]))

def read(t, v, values, kind):
  """ Calls the variable in one of its forms. """
  form = t.choice(['call', 'evaluate', 'dict', 'vardict'])
  if form == 'call': d = t.call('Variable()', v, values)
  elif form == 'evaluate': d = t.call('evaluate', v.evaluate, values)
  elif form == 'dict': d = t.call('Variable(dict)', v, {v.name: values})
  else: d = t.call('Variable(dict)', v, {v: values})
  t.check(isinstance(d, pb.Distribution) and list(d.keys()) == [v.name], kind + ':keys', repr(d))
  return d[v.name]

def typed(r, x):
  k = np.asarray(x).dtype.kind
  return {'bool': 'b', 'int': 'i', 'float': 'f'}[r.kind] == k

def evaluate(t):
  r = zoo.ref(t, finite=False)
  v = zoo.build(t, 'x', r)
  how = t.choice(['none', 'zero', 'grid', 'random', 'array', 'scalar'])
  if how in ('none', 'zero', 'grid', 'random') and r.kind == 'float' and not r.finite:
    n = {'none': None, 'zero': {0}, 'grid': {t.int(1, 9)}, 'random': {-t.int(1, 9)}}[how]
    t.rejects('sampling an infinite range', v, n, _kind='infinite')
    t.cover('infinite', how, r.sig()); return
  if how == 'none':
    got = read(t, v, None, how)
    if r.kind != 'float':
      t.check(np.array_equal(got, r.vals) and typed(r, got), 'default', '{} {}'.format(r, got))
    else:
      t.check(np.ndim(got) == 0 and r.inside(float(got)), 'default', '{} {}'.format(r, got))
  elif how == 'zero':
    got = read(t, v, {0}, how)
    t.check(np.ndim(got) == 0 and r.inside(got if r.kind != 'float' else float(got)) and typed(r, got),
            'zero', '{} {}'.format(r, got))
  elif how == 'grid':
    n = t.choice([1, 2, 3, t.int(4, 12), 100])
    got = read(t, v, {n}, how)
    t.check(np.shape(got) == (n,) and typed(r, got), 'grid:number', '{} {}'.format(n, np.shape(got)))
    if r.kind != 'float':
      t.check(np.array_equal(got, [r.vals[i % len(r.vals)] for i in range(n)]), 'grid:serial', '{} {}'.format(r, got))
    else:
      t.check(all(r.inside(x) for x in got), 'grid:inside', '{} {}'.format(r, got))
      t.close(got, zoo.grid(r, n), 'grid:points', rtol=1e-7, atol=1e-7)
      if n > 1:
        u = np.diff(r.fwd(got))
        t.check(np.all(np.diff(got) > 0) or np.all(np.diff(got) < 0), 'grid:order', repr(got))
        t.close(u, np.full(n - 1, u.mean()), 'grid:even', rtol=1e-5, atol=1e-9 * r.length)
  elif how == 'random':
    n = t.choice([1, 2, 3, t.int(4, 40)])
    got = read(t, v, {-n}, how)
    t.check(np.shape(got) == (n,) and typed(r, got), 'random:number', '{} {}'.format(n, np.shape(got)))
    t.check(all(r.inside(x) for x in got), 'random:inside', '{} {}'.format(r, got))
    if r.kind != 'float':
      c = [int(np.sum(got == x)) for x in r.vals]
      t.check(max(c) - min(c) <= 1, 'random:permutations', '{} {}'.format(r, got))
  elif how == 'array':
    xs = np.array([r.pick(t) for _ in range(t.int(1, 5))])
    got = read(t, v, xs, how)
    t.check(np.array_equal(got, xs) and np.shape(got) == xs.shape, 'array', '{} {}'.format(xs, got))
  else:
    x = r.pick(t)
    got = read(t, v, x, how)
    t.check(np.ndim(got) == 0 and got == x, 'scalar', '{} {}'.format(x, got))
  t.cover('evaluate', how, r.sig(), np.size(got))

def uniformity(t):
  """ Samples are uniform over the set in transformed coordinates. """
  r = zoo.ref(t)
  v = zoo.build(t, 'x', r)
  if r.kind == 'float':
    how = t.choice(['many', 'many', 'single'])
    n = 3000 if how == 'many' else 250
    xs = np.ravel(read(t, v, {-n}, 'uni')) if how == 'many' else \
         np.array([float(read(t, v, t.choice([None, {0}]), 'uni')) for _ in range(n)])
    a, b = sorted((r.fwd(r.lo), r.fwd(r.hi)))
    u = (r.fwd(xs) - a) / (b - a)
    t.check(all(r.inside(x) for x in xs), 'samples:inside', repr(r))
    p = scipy.stats.kstest(u, 'uniform').pvalue
    t.check(p > P, 'samples:uniform', '{} p={}'.format(r, p))
  else:
    how = t.choice(['ones', 'zero', 'pairs'])
    if len(r.vals) < 2: raise Skip()
    n = 300
    xs = []
    while len(xs) < n:
      if how == 'zero': xs.append(read(t, v, {0}, 'uni'))
      elif how == 'ones': xs += list(np.ravel(read(t, v, {-1}, 'uni')))
      else:      # the first of two is uniform on its own
        xs.append(np.ravel(read(t, v, {-2}, 'uni'))[0])
    c = [sum(1 for x in xs if x == y) for y in r.vals]
    t.check(sum(c) == len(xs), 'samples:inside', repr(r))
    p = scipy.stats.chisquare(c).pvalue
    t.check(p > P, 'samples:uniform', '{} by {}: {} p={}'.format(r, how, c, p))
  t.cover('uniformity', how, r.sig())

def reset(t):
  """ Redeclaring a variable's set or transformation takes effect as a whole. """
  r = zoo.ref(t, kind='float', trans=False)
  v = zoo.build(t, 'x', r)
  steps = []
  for _ in range(t.int(1, 3)):
    what = t.choice(['vset', 'ufun', 'none'])
    if what == 'vset':
      q = zoo.ref(t, kind='float', trans=r.trans or False)
      v.vset = zoo.vset(t, q)[0]
      r = q
    elif what == 'ufun':
      ok = [k for k, x in zoo.TRANS.items() if x[2] <= r.lo and r.hi <= x[3]]
      if not ok: continue
      r.trans = t.choice(sorted(ok))
      t.call('set_ufun', v.set_ufun, zoo.TRANS[r.trans][:2])
    else:
      r.trans = None
      t.call('set_ufun', v.set_ufun, None)
    steps.append(what)
    t.close(v.vlims, [r.lo, r.hi], 'reset:vlims', rtol=0., atol=0.)
    t.close(sorted(v.ulims), sorted([float(r.fwd(r.lo)), float(r.fwd(r.hi))]), 'reset:ulims', rtol=1e-12)
    t.close(v.length, r.length, 'reset:length')
    n = t.int(2, 6)
    got = t.call('evaluate', v.evaluate, {n})['x']
    t.close(got, zoo.grid(r, n), 'reset:grid', rtol=1e-7, atol=1e-7)
  if not steps: raise Skip()
  t.cover('reset', tuple(steps), r.sig())

def refuse(t):
  """ Inconsistent declarations are refused; lists given are left alone. """
  how = t.choice(['triple', 'mixed', 'float3', 'ufun-int', 'ufun-one', 'type', 'same'])
  V = pb.Variable
  if how == 'triple': t.rejects('3-tuple set', V, 'x', vset=(1., 2., 3.), vtype=float, _kind=how)
  elif how == 'mixed': t.rejects('mixed types', V, 'x', vset=[1, 2.5, True], _kind=how)
  elif how == 'float3': t.rejects('3 limits', V, 'x', vset=[1., 2., 3.], vtype=float, _kind=how)
  elif how == 'ufun-int':
    v = V('x', vset=[1, 2, 3])
    t.rejects('discrete transformation', v.set_ufun, (np.log, np.exp), _kind=how)
  elif how == 'ufun-one':
    v = V('x', vset=[1., 2.])
    t.rejects('transformation without inverse', v.set_ufun, t.choice([np.log, (np.log,), (np.log, 3.), (1, 2)]), _kind=how)
  elif how == 'type':
    v = V('x', vset=[1., 2.])
    def f(): v.vset = [(1,), (2,)]; v.vset = t.choice([[1., 2., 3.], 'abc', (1, 2, 3)])
    t.rejects('bad set', f, _kind=how)
  else:
    lims = [t.int(0, 3), t.int(4, 9)]
    keep = list(lims)
    t.call('Variable', V, 'x', vset=lims, vtype=float)
    t.check(lims == keep and all(type(a) is int for a in lims), 'operand', 'the list given was modified: {}'.format(lims))
    w = t.call('Variable', V, 'y', vset=lims)
    t.check(w.vtype is int and list(w.vset) == keep, 'operand')
    z = t.call('Variable', V, 'z', vtype=float)
    t.check(list(z.vlims) == [-math.inf, math.inf], 'defaults')
  t.cover('refuse', how)

STAGES = {
  'declare':    (declare, 12000, 72000),
  'evaluate':   (evaluate, 16000, 96000),
  'uniformity': (uniformity, 1600, 9600),
  'reset':      (reset, 2400, 14400),
  'refuse':     (refuse, 800, 4800),
}
