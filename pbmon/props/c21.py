""" C21: binary conversions and boolean counting likelihoods are exact. """
import collections
import itertools
import numpy as np
import probayes as pb
from probayes import likelihoods as lh
from probayes.rf_utils import slice_by_keyvals
from pbmon import gen, model

RULE = ('a case converts integers or counts boolean data, by function, field or conditional model, and compares every bit, count and '
        'relative frequency reported, at every assignment, with direct counting; cases count by size, base, labels and kind of call')
ASSUMPTIONS = ['integers are below 2**62', 'data contain at least one row, or a base frequency is given',
               'likelihood values are asked for at scalars and arrays of booleans of one axis for each label']

def convert(t):
  """ Integers to bits and back. """
  bits = t.choice([1, 2, 3, 8, 16, 31, 32, 33, 53, 60])
  many = t.chance(.6)
  pick = lambda: t.choice([0, 1, 2**bits - 1, 2**(bits - 1), t.rng.randrange(2**bits), t.rng.randrange(2**bits)])
  nums = [pick() for _ in range(t.int(1, 6) if many else 1)]
  pad = t.choice([0, 0, 1, t.int(1, 70)])
  if pad > 62: pad = 62
  need = max(len(format(n, 'b')) for n in nums)
  width = max(need, pad)
  arg = (t.choice([list, tuple, lambda v: np.array(v, dtype=np.int64)])(nums) if many else t.choice([int, np.int64])(nums[0]))
  args = () if not pad else (pad,)
  got = t.call('int_to_bin', lh.int_to_bin, arg, *args)
  want = np.array([[c == '1' for c in format(n, 'b').zfill(width)] for n in nums], dtype=bool)
  if not many: want = want[0]
  t.check(isinstance(got, np.ndarray) and got.dtype == bool and got.shape == want.shape and bool(np.all(got == want)), 'bits',
          '{} padded to {}: {}'.format(nums, pad, got.astype(int).tolist() if isinstance(got, np.ndarray) else got))
  back_in = got if t.chance(.5) else got.tolist() if t.chance(.5) else got.astype(t.choice([np.int8, np.uint8, int]))
  back = t.call('bin_to_int', lh.bin_to_int, back_in)
  t.check(np.shape(back) == ((len(nums),) if many else ()) and [int(b) for b in np.ravel(back)] == nums, 'integers', '{} returned as {}'.format(nums, back))
  t.cover('convert', bits, many, len(nums), pad > need)

def data(t, cols):
  rows = t.choice([1, 2, 5, 20, 100])
  p = t.np.uniform(0., 1., size=cols); p[t.np.random(cols) < .15] = t.choice([0., 1.])
  b = t.np.random((rows, cols)) < p
  if t.chance(.3) and rows > 1: b[:, t.int(0, cols - 1)] = b[:, 0]
  if t.chance(.2): b = np.asfortranarray(b)
  counts = collections.Counter(tuple(bool(v) for v in row) for row in b)
  base = t.choice([0, 0, 1, 1, 2, .5])
  cells = {a: counts[a] + base for a in itertools.product([False, True], repeat=cols)}
  return b, rows, base, cells

def frequencies(t):
  """ Counts and the relative frequencies reported at given values. """
  cols = t.int(1, 5) if not t.chance(.1) else t.int(6, 9)
  b, rows, base, cells = data(t, cols)
  copy = b.copy()
  args = {} if not base and t.chance(.5) else {'base_freq': base}
  got = t.call('counts', lh.bool_perm_freq, b, **args)
  want = np.array([cells[a] for a in itertools.product([False, True], repeat=cols)], dtype=float).reshape([2] * cols)
  t.close(got, want, 'counts', 'counts of {} rows, base {}'.format(rows, base)); t.check(np.shape(got) == want.shape, 'counts', 'shape {}'.format(np.shape(got)))
  t.close(np.sum(got), rows + base * 2**cols, 'total', 'counts of {} rows, base {}'.format(rows, base))
  labels = t.shuffled(['x', 'y', 'z', 'a', 'b', 'c', 'xy', 'x1', 'A'])[:cols]
  f, rel = t.call('frequencies', lh.bool_perm_freq, b, list(labels) if t.chance(.5) else tuple(labels), **args)
  total = float(sum(cells.values()))
  t.close(rel, want / total, 'frequencies', 'relative frequencies of {} rows, base {}'.format(rows, base))
  t.check(bool(np.all(b == copy)), 'arguments', 'the data passed were changed')
  for _ in range(t.int(1, 4)):
    order = t.shuffled(labels); spec = {}; dims = {}
    arrays = [k for k in order if t.chance(.6)]
    n = len(arrays)
    for k in order:
      if k in arrays:
        vals = t.choice([[False, True], [False, True], [True, False], [True], [False]])
        dim = arrays.index(k); shape = [1] * n; shape[dim] = len(vals)
        spec[k] = np.array(vals).reshape(shape); dims[k] = dim
      else: spec[k] = t.choice([True, False, np.bool_(True), np.bool_(False)]); dims[k] = None
    if t.chance(.3): dims = {k: d for k, d in dims.items() if d is not None}
    res = t.call('likelihood', f, spec, dims=dims) if t.chance(.5) else t.call('likelihood', f, dims=dims, **spec)
    grid = itertools.product(*[np.ravel(spec[k]).tolist() if k in arrays else [bool(spec[k])] for k in arrays + [k for k in order if k not in arrays]])
    names = arrays + [k for k in order if k not in arrays]
    vals = []
    for g in grid:
      a = dict(zip(names, g)); vals.append(cells[tuple(a[k] for k in labels)] / total)
    shape = tuple(len(np.ravel(spec[k])) for k in arrays)
    t.check(np.shape(res) == shape, 'shape', '{} for {}'.format(np.shape(res), shape))
    t.close(res, np.array(vals).reshape(shape), 'likelihood', 'of {} labelled {} dims {}'.format(spec, labels, dims))
    t.cover('frequencies', cols, base, n, [len(np.ravel(spec[k])) for k in arrays], order == labels)
  t.sample({'data': b.astype(int).tolist()[:6], 'base': base})

def models(t):
  """ Fields and conditional models with counted likelihoods. """
  cols = t.int(2, 4)
  b, rows, base, cells = data(t, cols)
  labels = t.shuffled(['x', 'y', 'z', 'w'])[:cols]
  f, rel = t.call('frequencies', lh.bool_perm_freq, b, labels, base_freq=base)
  total = float(sum(cells.values()))
  order = t.shuffled(labels)
  rvs = {k: pb.RV(k, vtype=bool) for k in order}
  split = t.int(1, cols) if t.chance(.7) else cols
  mk = lambda ks: rvs[ks[0]] if len(ks) == 1 and t.chance(.5) else pb.RF(*[rvs[k] for k in ks])
  if split == cols: m, cond = t.call('RF', pb.RF, *[rvs[k] for k in order]), []
  else: m, cond = t.call('SD', pb.SD, mk(order[:split]), mk(order[split:])), order[split:]
  t.call('set_prob', m.set_prob, f, passdims=True)
  for _ in range(t.int(1, 4)):
    given = {}
    for k in order:
      if t.chance(.4): given[k] = t.choice([True, False])
      elif t.chance(.15): given[k] = {0}
    given = {k: given[k] for k in t.shuffled(list(given))}
    d = t.call('model', m, given) if given or t.chance(.5) else t.call('model', m)
    got = model.read(d)
    marg = [k for k in order if k not in cond]
    n = 0
    for a in itertools.product([False, True], repeat=cols):
      a = dict(zip(order, a))
      if any(k in given and not isinstance(given[k], set) and given[k] != v for k, v in a.items()): continue
      want = cells[tuple(a[k] for k in labels)] / total
      key = got.key(a)
      if key not in got.cells:
        t.check(any(isinstance(v, set) for v in given.values()), 'missing', '{} of {} given {}'.format(a, m.name, given)); continue
      lp = got.cells[key]; p = np.exp(lp) if lp > -1e300 else 0.; n += 1
      t.close(p, want, 'model', '{} at {} given {}'.format(m.name, a, given), atol=1e-300)
    t.check(n == len(got.cells), 'entries', '{} entries of {}'.format(len(got.cells), n))
    t.cover('models', cols, split, base, sorted(type(v).__name__ for v in given.values()), order == labels)

def naive(t):
  """ Several counted conditionals multiply. """
  k = t.int(2, 3)
  names = ['z'] + t.shuffled(['x', 'y', 'w'])[:k]
  rvs = {n: pb.RV(n, vtype=bool) for n in names}
  parts, tabs = [], []
  for n in names[1:]:
    b, rows, base, cells = data(t, 2)
    labels = t.choice([['z', n], [n, 'z']])
    f, rel = t.call('frequencies', lh.bool_perm_freq, b, labels, base_freq=base)
    sd = t.call('SD', pb.SD, rvs['z'], rvs[n]); t.call('set_prob', sd.set_prob, f, passdims=True)
    parts.append(sd); tot = float(sum(cells.values()))
    tabs.append((labels, {a: c / tot for a, c in cells.items()}))
  joint = t.call('SD of SDs', pb.SD, *parts)
  given = {n: t.choice([True, False]) for n in names if t.chance(.4)}
  d = t.call('model', joint, given) if given else t.call('model', joint)
  got = model.read(d); n = 0
  for a in itertools.product([False, True], repeat=k + 1):
    a = dict(zip(names, a))
    if any(a[q] != v for q, v in given.items()): continue
    want = 1.
    for labels, tab in tabs: want *= tab[tuple(a[q] for q in labels)]
    key = got.key(a)
    t.check(key in got.cells, 'missing', '{} given {}'.format(a, given)); n += 1
    lp = got.cells[key]; p = np.exp(lp) if lp > -1e300 else 0.
    t.close(p, want, 'naive', 'product at {} given {}'.format(a, given), atol=1e-300)
  t.check(n == len(got.cells), 'entries', '{} entries of {}'.format(len(got.cells), n))
  t.cover('naive', k, len(given), [tb[0][0] == 'z' for tb in tabs])

def slices(t):
  """ Tables of values other than boolean, sliced with dimensions given or guessed. """
  n = t.int(1, 4)
  keys = t.shuffled(['x', 'y', 'z', 'w'])[:n]
  sizes = [t.int(1, 4) for _ in keys]
  vals = collections.OrderedDict(); vdims = {}; content = {}
  for i, (k, s) in enumerate(zip(keys, sizes)):
    shape = [1] * n; shape[i] = s
    content[k] = t.shuffled(range(10))[:s]
    vals[k] = np.array(content[k]).reshape(shape); vdims[k] = i
  prob = t.np.random(sizes)
  order = t.shuffled(keys) if t.chance(.6) else list(keys)
  arrays = [k for k in order if t.chance(.6)]
  spec = collections.OrderedDict(); sdims = {}
  for k in order:
    if k in arrays:
      take = list(content[k]) if t.chance(.6) else t.shuffled(content[k])[:t.int(1, len(content[k]))]
      shape = [1] * len(arrays); shape[arrays.index(k)] = len(take)
      spec[k] = np.array(take).reshape(shape); sdims[k] = arrays.index(k)
    else: spec[k] = t.choice(content[k]); sdims[k] = None
  guess_v = t.chance(.4); guess_s = t.chance(.4)
  got = t.call('slice', slice_by_keyvals, spec, vals, prob, None if guess_v else vdims, None if guess_s else sdims)
  names = arrays + [k for k in order if k not in arrays]
  grid = itertools.product(*[np.ravel(spec[k]).tolist() for k in names])
  want = [prob[tuple(content[k].index(dict(zip(names, g))[k]) for k in keys)] for g in grid]
  shape = tuple(np.size(spec[k]) for k in arrays)
  t.check(np.shape(got) == shape, 'shape', '{} for {}'.format(np.shape(got), shape))
  t.close(got, np.array(want).reshape(shape), 'slice', 'of {} at {}'.format(vals, spec))
  t.cover('slices', n, len(arrays), order == keys, guess_v, guess_s, sizes)

STAGES = {
  'convert': (convert, 6000, 36000),
  'frequencies': (frequencies, 8000, 48000),
  'models': (models, 1200, 7200),
  'naive': (naive, 480, 2880),
  'slices': (slices, 8000, 48000),
}
