""" C01: probability scales never change the probability represented. """
import math
import numpy as np
import probayes as pb
from probayes.pscales import eval_pscale, rescale, prod_pscale, prod_rule, div_prob, \
                             log_prob, exp_logp, logp_offs, prob_coef
from pbmon import gen, model

RULE = ('a case counts for a distinct (operation, scale kinds of inputs and output, shape, '
        'zeros/tiny/ordinary magnitude) combination with at least one probability compared')
ASSUMPTIONS = ['probabilities are non-negative floats; linear numbers below 1e-300 may flush to zero']

SPELL = [None, 1, 1., 1.0, 2, 'log', 'ln', 0, 0., 0j, 2.5, 0.25, 3e-5, 7e4, 1e-40,
         complex(1.5, 0.), complex(-2.75, 0.), complex(0.1, 0.), complex(300., 0.),
         complex(-800., 0.), complex(0.9, np.pi), complex(3.5, np.pi), complex(1e-3, 0.), complex(1., 0.)]

def ref_scale(pscale):
  """ Independent reading of a scale's spelling. """
  if pscale is None: return 1.
  if isinstance(pscale, str): return 0j
  if isinstance(pscale, complex): return pscale
  return 0j if pscale == 0 else float(pscale)

def kind(pscale):
  p = ref_scale(pscale)
  if isinstance(p, complex):
    return 'log0' if p == 0 else ('logneg' if abs(p.imag) > 0 else 'log+' if p.real > 0 else 'log-')
  return 'one' if p == 1. else 'coef'

ANY = object()

def spell(t, like=None, named=False):
  """ A scale: from the list, random, or a relative of the one given. """
  r = t.rng.random()
  if like is not None and r < .25:
    p = ref_scale(like)
    x = p.real if isinstance(p, complex) else p
    opts = [like, p, complex(x, 0.), complex(x, np.pi), complex(-x, 0.), complex(x + 1e-5, 0.)]
    if x > 0: opts += [float(x), x*1.0001, 1./x, complex(math.log(x), 0.), complex(-math.log(x), np.pi)]
    opts = [o for o in opts if isinstance(o, (str, type(None))) or abs(o) < 1000 and
            (isinstance(o, complex) or o == 0 or abs(math.log(o)) < 100)]
    return t.choice(opts) if not named else t.choice([o for o in opts if o is not None] or [1.])
  if r < .5:
    kind = t.int(0, 4)
    if kind == 0: return math.exp(t.rng.uniform(-14., 14.))
    if kind == 1: return t.int(1, 12)
    if kind == 2: return complex(t.rng.uniform(-60., 60.), 0.)
    if kind == 3: return complex(t.rng.uniform(0., 20.), np.pi)
    return t.choice([1. + 1e-7, 1. - 1e-4, complex(1e-6, 0.), complex(-1e-5, 0.)])
  return t.choice(SPELL[1:] if named else SPELL)

def numbers(t, pscale, size=ANY, deep=True, zeros=True):
  """ Stored numbers at a scale, and the log probabilities they stand for. """
  p = ref_scale(pscale)
  off = model.offset(p)
  shape = t.choice([None, (1,), (3,), (4,), (2, 3), (1, 2), (2, 1, 2), ()]) if size is ANY else size
  n = int(np.prod(shape)) if shape is not None else 1
  mags, out = set(), []
  deepness = t.choice([0., 0., 0., -50., -200.])
  if isinstance(p, complex) and deep and t.chance(.3):
    deepness = t.choice([-745., -2000., -1e5])
  for _ in range(n):
    r = t.rng.random()
    if zeros and r < .08:
      lp = -math.inf; mags.add('zero')
    elif r < .3:
      lp = math.log(t.choice([1., .5, .25, 1e-3, 2., 1.])) + deepness
    else:
      lp = -8. * t.rng.random() + deepness
    out.append(lp)
  if isinstance(p, complex):
    nums = [-1.7976931348623157e308 if x == -math.inf else x - off for x in out]
  else:
    # keep linear numbers representable
    nums = [0. if x == -math.inf else math.exp(max(-680., min(680., x - off))) for x in out]
    out = [-math.inf if x == -math.inf else max(-680., min(680., x - off)) + off for x in out]
  mags.add('deep' if deepness < -700 else 'small' if deepness else 'plain')
  if shape is None:
    return nums[0], out[0], frozenset(mags)
  arr = np.array(nums, dtype=float).reshape(shape)
  return arr, np.array(out, dtype=float).reshape(shape), frozenset(mags)

def same(t, got, pscale, want, what, strict, tol=1e-9):
  """ got at pscale must represent the log probabilities want. """
  pscale = ref_scale(pscale)
  g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
  t.check(g.shape == w.shape, what + ':shape', 'shape {} expected {}'.format(g.shape, w.shape))
  flush = -math.inf if strict else -690.
  off = model.offset(pscale)
  for x, y in zip(g.ravel(), w.ravel()):
    t.events['check:' + what] += 1
    if not isinstance(pscale, complex):
      lim = y - off
      if lim > 700:      # clamped to the largest float
        t.check(x > 1e300, what, 'overflow {} of {}'.format(x, y)); continue
      if lim < -690 and x < 1e-299:
        continue
    if math.isnan(x) or not model.near(model.true_logp(x, pscale), y, tol, flush):
      t.fail(what, 'number {} at scale {} stands for log probability {}, should be {}'.format(
          x, pscale, model.true_logp(x, pscale) if x == x else 'nan', y))

def convert(t):
  p = spell(t)
  r = spell(t, p)
  num, lp, mags = numbers(t, p)
  if isinstance(num, np.ndarray) and num.ndim == 0:
    num = num.copy()
  before = np.array(num, copy=True)
  t.note('rescale({!r}, {!r}, {!r})'.format(num, p, r))
  ev = t.call('eval_pscale', eval_pscale, r)
  t.check(type(ev) in (float, complex) and ev == ref_scale(r) and
          isinstance(ev, complex) == isinstance(ref_scale(r), complex), 'eval_pscale',
          '{!r} evaluated to {!r}'.format(r, ev))
  got = t.call('rescale', rescale, num, p, r)
  both_log = isinstance(ref_scale(p), complex) and isinstance(ref_scale(r), complex)
  strict = isinstance(ref_scale(r), complex)
  same(t, got, r, lp, 'rescale', strict)
  t.check(np.array_equal(before, np.asarray(num)), 'operand', 'rescale changed its input')
  back = t.call('rescale-back', rescale, got, r, p)
  if both_log or 'deep' not in mags:
    rp = ref_scale(r)
    lo = (model.offset(rp) if not isinstance(rp, complex) else -math.inf)
    ok = [x == -math.inf or -680 < x - lo < 680 for x in np.ravel(lp)] if np.isfinite(lo) else [True]
    if all(ok):
      same(t, back, p, lp, 'rescale-back', isinstance(ref_scale(p), complex))
  # one-argument form converts from the default scale
  if kind(p) == 'one':
    same(t, t.call('rescale1', rescale, num, r), r, lp, 'rescale1', strict)
  # integer and single precision inputs
  if not isinstance(ref_scale(p), complex) and t.chance(.3):
    ints = np.array([0, 1, 1, 0, 2])
    want = np.array([-math.inf, 0., 0., -math.inf, math.log(2.)])
    want = want + model.offset(ref_scale(p))
    same(t, t.call('rescale-int', rescale, ints, p, r), r, want, 'rescale-int', strict)
  t.cover('convert', kind(p), kind(r), np.ndim(num), np.isscalar(num), mags)
  t.sample('rescale({}, {}, {}) -> {}'.format(np.asarray(num).tolist(), p, r, np.asarray(got).tolist()))

def scalars(t):
  """ Offsets and coefficients of scales. """
  p = spell(t)
  off = model.offset(ref_scale(p))
  t.close(t.call('logp_offs', logp_offs, p), off, 'logp_offs', rtol=1e-12, atol=1e-12)
  if abs(off) < 600:
    t.close(t.call('prob_coef', prob_coef, p), math.exp(off), 'prob_coef', rtol=1e-12)
  x = t.choice([0., 1e-320, 1e-200, .3, 1., 5.])
  if x != 1e-320:
    t.check(model.near(model.true_logp(t.call('log_prob', log_prob, x), 0j), math.log(x) if x else -math.inf),
            'log_prob', str(x))
  y = t.choice([-1e308, -3000., -2., 0., 50., 709., 800., 1e10])
  z = t.call('exp_logp', exp_logp, y)
  t.close(z, math.exp(y) if y < 709.7 else 1.7976931348623157e308, 'exp_logp', rtol=1e-12)
  n = t.int(1, 5)
  ps = [spell(t) for _ in range(n)]
  if n > 1: ps[1] = spell(t, ps[0])
  for use in (None, True, False):
    evs = [ref_scale(q) for q in ps]
    tot = sum(model.offset(q) for q in evs)
    if use is False and abs(tot) > 600: continue
    if use is None and not any(isinstance(q, complex) for q in evs) and abs(tot) > 600: continue
    coefs = [model.offset(q) for q in evs]
    if (use is False or use is None) and any(abs(c) > 600 for c in coefs): continue
    got = t.call('prod_pscale', prod_pscale, evs) if use is None else \
          t.call('prod_pscale', prod_pscale, evs, use)
    t.check(isinstance(got, complex) == (use if use is not None else any(isinstance(q, complex) for q in evs)),
            'prod_pscale:kind', '{} -> {}'.format(evs, got))
    t.close(model.offset(got), tot, 'prod_pscale', 'scales {} -> {}'.format(evs, got),
            rtol=1e-9, atol=1e-9)
    t.cover('prod_pscale', tuple(sorted(kind(q) for q in evs)), use)

def product(t):
  n = t.int(1, 4)
  ps = [ref_scale(spell(t)) for _ in range(n)] if t.chance(.9) else [1.] * n
  if n > 1 and ps[0] != 1.: ps[1] = ref_scale(spell(t, ps[0]))
  shape = t.choice([None, (3,), (2, 3), (1,)])
  use = t.choice([None, None, None, True, False])
  want_scale = t.choice([None, None, spell(t, ps[0], named=True)])
  any_log = any(isinstance(p, complex) for p in ps)
  use_eff = any_log if use is None else use
  nums, lps, allmags = [], [], set()
  for p in ps:
    num, lp, mags = numbers(t, p, size=shape, deep=use_eff)
    nums.append(num); lps.append(lp); allmags |= mags
  kw = {'pscales': ps}
  if use is not None: kw['use_logp'] = use
  if want_scale is not None: kw['pscale'] = ref_scale(want_scale)
  want = np.asarray(sum(np.asarray(lp) for lp in lps))
  offs = sum(model.offset(p) for p in ps)
  if not use_eff:
    # linear arithmetic: keep within range, part by part
    run, raw = 0., 0.
    for p, lp, num in zip(ps, lps, nums):
      for x in np.ravel(num):
        if isinstance(p, complex) and x > -1e300 and not -650 < x < 650: raise_skip()
      fin = np.asarray(lp)[np.isfinite(lp)]
      if fin.size:
        raw = raw + np.max(np.abs(fin - model.offset(p)))
      run = run + abs(model.offset(p))
    if raw > 600 or run > 600 or any(np.any(np.abs(np.asarray(x)[np.isfinite(x)]) > 600) for x in lps):
      raise_skip()
  if all(q == 1. and not isinstance(q, complex) for q in ps) and t.chance(.7): kw.pop('pscales')
  t.note('prod_rule({}, {})'.format([np.asarray(x).tolist() for x in nums], kw))
  got, scale = t.call('prod_rule', prod_rule, *nums, **kw)
  if want_scale is not None:
    t.check(scale == ref_scale(want_scale), 'prod_rule:scale', 'scale {} asked {}'.format(scale, want_scale))
  else:
    t.check(isinstance(scale, complex) == use_eff, 'prod_rule:scale', 'scale kind of {}'.format(scale))
  strict = use_eff and isinstance(scale, complex)
  same(t, got, scale, want, 'prod_rule', strict)
  t.cover('product', tuple(sorted(kind(p) for p in ps)), 'pscales' in kw, use, kind(want_scale) if want_scale is not None else None)
  t.sample('prod_rule({}, {}) -> {}, {}'.format(nums, kw, got, scale))

def raise_skip():
  from pbmon.core import Skip
  raise Skip()

def divide(t):
  p = spell(t)
  q = spell(t, p)
  shape = t.choice([None, (3,), (2, 3), (1,)])
  logs = isinstance(ref_scale(p), complex) and isinstance(ref_scale(q), complex)
  num, lp, m1 = numbers(t, p, size=shape)
  same_mag = t.chance(.5)
  den, lq, m2 = numbers(t, q, size=shape, zeros=False)
  if t.chance(.15):    # nought over nought is nought
    if shape is None:
      num, lp = (0. if not isinstance(ref_scale(p), complex) else -1.7976931348623157e308), -math.inf
  if t.chance(.2):
    q, den, lq = p, num, lp
  forms = t.choice(['default', 'both', 'out', 'out'])
  r = spell(t, q)
  want = np.asarray(lp) - np.asarray(lq)
  want = np.where(np.asarray(lp) == -math.inf, -math.inf, want)
  lin_ok = all(x == -math.inf or abs(x) < 600 for v in (lp, lq, want) for x in np.ravel(v))
  if not lin_ok and not logs:
    raise_skip()
  if forms == 'default':
    if kind(p) != 'one' or kind(q) != 'one': raise_skip()
    got, out = t.call('div_prob', div_prob, num, den), 1.
  elif forms == 'both':
    got, out = t.call('div_prob', div_prob, num, den, p, q), ref_scale(p)
  else:
    got, out = t.call('div_prob', div_prob, num, den, p, q, pscale=r), (
        ref_scale(r) if r is not None else ref_scale(p))
  if not isinstance(out, complex) and not lin_ok:
    raise_skip()
  t.note('div_prob({}, {}, {}, {}, {}) -> {}'.format(num, den, p, q, r, got))
  same(t, got, out, want, 'div_prob', logs and isinstance(out, complex))
  t.cover('divide', kind(p), kind(q), forms, kind(out), m1, m2)
  t.sample('div_prob({}, {}, {}, {}, pscale={}) -> {}'.format(num, den, p, q, r, got))

def rescaled(t):
  """ The same for whole distributions. """
  names = t.rng.sample(gen.NAMES, t.int(1, 3))
  spec = gen.Spec(t, names)
  p = gen.scale(t)
  r = spell(t, gen.norm_scale(p))
  if isinstance(r, complex) and abs(r.real) > 100: r = 'log'
  cut = t.int(1, len(names))
  dist = gen.build(t, names[:cut], names[cut:], spec.vals, p)
  table = model.read(dist)
  snap = gen.snapshot(dist)
  out = t.call('rescaled', dist.rescaled, r)
  t.check(out.pscale == ref_scale(r) and isinstance(out.pscale, complex) == isinstance(ref_scale(r), complex),
          'rescaled:scale', '{} for {}'.format(out.pscale, r))
  model.agree(t, out, table, 'rescaled')
  gen.unchanged(t, dist, snap, 'rescaled:operand')
  back = t.call('rescaled', out.rescaled, dist.pscale)
  model.agree(t, back, table, 'rescaled-back')
  t.cover('rescaled', kind(gen.norm_scale(p)), kind(r), len(names), dist.ndim)

STAGES = {
  'convert':  (convert, 32000, 192000),
  'scalars':  (scalars, 1600, 9600),
  'product':  (product, 32000, 192000),
  'divide':   (divide, 32000, 192000),
  'rescaled': (rescaled, 10000, 60000),
}
