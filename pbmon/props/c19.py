""" C19: operations never modify the distributions they are applied to. """
import collections
import numpy as np
import probayes as pb
from pbmon import gen, model, walk
from pbmon.core import Skip

RULE = ('a case is a history of operations over a shared pool, all members of which are compared with their '
        'snapshots after every operation; histories count by their sequence of operations')
ASSUMPTIONS = ['arrays handed out are not modified in place by the user']

def history(t):
  pool = walk.start(t, t.int(2, 4))
  snaps = [gen.snapshot(d) for d in pool]
  ops = []
  for _ in range(t.int(4, 12)):
    try:
      used, out, tag = t.choice(walk.OPS)(t, pool)
    except Skip:
      continue
    ops.append(tag)
    for d, s in zip(pool, snaps):
      gen.unchanged(t, d, s, 'operand:' + tag)
    if out is not None and np.size(out.prob) <= 2000:
      t.check(all(out is not d for d in used), 'identity:' + tag, 'result is its operand')
      if len(pool) < 7:
        pool.append(out); snaps.append(gen.snapshot(out))
      else:
        i = t.int(0, len(pool) - 1)
        pool[i], snaps[i] = out, gen.snapshot(out)
      if t.chance(.3):       # relabelling the result must not reach the operands
        k = t.choice(list(out.keys()))
        if out.dims[k] is not None and np.size(out[k]):
          out[k] = np.zeros(np.shape(out[k]))
        out.pscale = 3.25
        i = next(i for i, d in enumerate(pool) if d is out)
        snaps[i] = gen.snapshot(out)
        for d, s in zip(pool, snaps):
          gen.unchanged(t, d, s, 'aliased:' + tag)
        pool.pop(i); snaps.pop(i)
        if not pool: break
  if len(ops) < 2: raise Skip()
  t.cover('history', tuple(ops))
  t.sample({'history': ops, 'pool': [repr(d) for d in pool]})

def replay(t):
  """ The same operation gives the same result whatever was done in between. """
  pool = walk.start(t, t.int(2, 3))
  op = t.choice(walk.OPS)
  state = t.rng.getstate(); npst = t.np.bit_generator.state
  try:
    used, first, tag = op(t, pool)
  except Skip:
    raise
  if first is None: raise Skip()
  want = gen.snapshot(first)
  keep = t.rng.getstate()
  done = []
  for _ in range(t.int(1, 6)):
    try:
      done.append(t.choice(walk.OPS)(t, pool)[2])
    except Skip:
      pass
  t.rng.setstate(state); t.np.bit_generator.state = npst
  used, second, tag = op(t, pool)
  got = gen.snapshot(second)
  same = got[:2] == want[:2] and got[3:6] == want[3:6] and got[7:] == want[7:] and \
         np.array_equal(got[6], want[6], equal_nan=True)
  same = same and all(np.array_equal(u, v) if isinstance(u, np.ndarray) else u == v
                      for u, v in zip(got[2], want[2]))
  t.check(same, 'replay:' + tag, 'result changed after {}: {} {}'.format(done, want, got))
  gen.unchanged(t, first, want, 'first:' + tag)
  t.cover('replay', tag, tuple(done))

def inputs(t):
  """ The arguments given to constructors and operations stay as they were. """
  names = t.rng.sample(gen.NAMES, t.int(1, 3))
  spec = gen.Spec(t, names, p_scalar=.2)
  arr = [k for k in names if not spec.isscalar(k)]
  vals = {k: spec.vals[k] for k in names}
  dims = {k: (arr.index(k) if k in arr else None) for k in names}
  prob = gen.make_prob(gen.logps(t, tuple(spec.vals[k].size for k in arr)), 1.)
  copy = {k: np.array(v, copy=True) for k, v in vals.items()}
  shapes = {k: np.shape(v) for k, v in vals.items()}
  before = np.array(prob, copy=True)
  kw = {'dims': dims} if t.chance(.6) else {}
  dist = t.call('PD', pb.PD, ','.join(names), vals, prob=prob, pscale=gen.scale(t, False), **kw)
  sel = {k: t.choice(list(np.ravel(dist[k]))) for k in arr[:1]}
  sel0 = dict(sel)
  if sel:
    t.call('select', dist, sel)
  keymap = {names[0]: 'zz'}
  t.call('rekey', dist.rekey, keymap)
  keys = list(names)
  t.call('expectation', dist.expectation, keys)
  ks = set(arr[:1])
  if len(names) > 1 and ks:
    t.call('marginalise', dist.marginalise, ks)
  dd = {k: dist.dims[k] for k in names}
  t.call('redim', dist.redim, dd)
  t.check(list(vals) == names and all(np.array_equal(vals[k], copy[k]) and np.shape(vals[k]) == shapes[k]
          for k in names), 'inputs:values', 'constructor arguments changed')
  t.check(dims == {k: (arr.index(k) if k in arr else None) for k in names}, 'inputs:dims')
  t.check(np.array_equal(prob, before), 'inputs:prob')
  t.check(sel == sel0 and keymap == {names[0]: 'zz'} and keys == names and ks == set(arr[:1]) and
          dd == {k: dist.dims[k] for k in names}, 'inputs:arguments')
  t.cover('inputs', len(names), len(arr), bool(kw))

STAGES = {
  'history': (history, 7500, 45000),
  'replay':  (replay, 3600, 21600),
  'inputs':  (inputs, 1500, 9000),
}
