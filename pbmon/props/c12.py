""" C12: random variables report and sample the probabilities declared for them. """
import math
import numpy as np
import scipy.stats
import probayes as pb
from pbmon import gen, model, zoo
from pbmon.core import Skip

RULE = ('a case declares a random variable (set, transformation, probability law, scale), evaluates it at its defaults, '
        'on grids, at random and at given values inside and outside the set, and compares every probability with the law; '
        'cases count by declaration, law, scale and request')
ASSUMPTIONS = ['functions given as probabilities return numbers on the declared scale',
               'boolean biases within 1e-5 of one half are treated as one half',
               'samples are judged by tests with a false-alarm probability below 1e-9 each']
P = 1e-9

def same(t, d, name, vals, logp, pscale, kind, tol=1e-9):
  """ The PD d labels vals (None: any) and gives each the probability logp(value). """
  t.check(isinstance(d, pb.PD), kind + ':type', repr(type(d)))
  model.layout_ok(t, d, kind)
  t.check(list(d.keys()) == [name] and list(d.marg.keys()) == [name] and not d.cond, kind + ':name', repr(d))
  ps = gen.norm_scale(pscale)
  t.check(isinstance(d.pscale, complex) == isinstance(ps, complex) and abs(d.pscale - ps) < 1e-12, kind + ':pscale',
          '{} vs {}'.format(d.pscale, ps))
  if vals is not None:
    t.check(np.array_equal(np.ravel(d[name]), np.ravel(vals)), kind + ':values', '{} vs {}'.format(d[name], vals))
  pr = np.ravel(d.prob)
  for x, p in zip(np.ravel(d[name]), pr):
    got, want = model.true_logp(p, d.pscale), logp(x.item() if hasattr(x, 'item') else x)
    t.check(model.near(got, want, tol=tol, pscale=d.pscale), kind + ':prob', 'at {}: log {} want {}'.format(x, got, want))
  return np.array([model.true_logp(p, d.pscale) for p in pr])

def given(t, r):
  """ Values inside and outside the set: scalar or array. """
  def one():
    x = r.pick(t, t.chance(.7))
    return r.pick(t) if x is None else x
  if t.chance(.4): return t.choice([one(), np.asarray(one())[()]])
  return np.array([one() for _ in range(t.int(1, 6))])

def ask(t, v, r, w, kind, n_quant=True):
  """ One request of a random variable; returns its signature. """
  pscale = w.pscale
  how = t.choice(['default', 'given', 'given', 'given', 'grid', 'random', 'zero', 'dict'])
  samplable = r.kind != 'float' or r.finite
  if w.kind == 'scipy' and r.kind != 'float' and how in ('grid', 'random', 'zero'): how = 'given'
  if w.kind == 'scipy' and r.kind == 'float' and math.isfinite(r.length):
    a, b = w.dist.cdf([r.lo, r.hi], **w.dkw)
    samplable = b - a > 1e-4 and b < 1. - 1e-9 and a > 1e-9
  if not samplable and how not in ('given', 'dict'): how = 'given'
  if how == 'given':
    x = given(t, r); d = t.call('RV(values)', v, x); same(t, d, v.name, x, w.logp, pscale, kind)
  elif how == 'dict':
    x = given(t, r); p = t.call('eval_prob', v.eval_prob, {v.name: x} if t.chance(.5) else x)
    t.check(np.shape(p) == np.shape(x), kind + ':shape', '{} {}'.format(np.shape(x), np.shape(p)))
    for a, b in zip(np.ravel(x), np.ravel(p)):
      a = a.item() if hasattr(a, 'item') else a
      got, want = model.true_logp(b, gen.norm_scale(pscale)), w.logp(a)
      t.check(model.near(got, want, pscale=gen.norm_scale(pscale)), kind + ':eval_prob', 'at {}: log {} want {}'.format(a, got, want))
  else:
    n = {'default': None, 'grid': {t.int(1, 9)}, 'random': {-t.int(1, 9)}, 'zero': {0}}[how]
    d = t.call('RV({})'.format(how), v, *([] if n is None and t.chance(.5) else [n]))
    lp = same(t, d, v.name, None, w.logp, pscale, kind)
    for x in np.ravel(d[v.name]):
      t.check(r.inside(x.item() if hasattr(x, 'item') else x), kind + ':inside', '{} in {}'.format(x, r))
    if how == 'default' and r.kind != 'float':
      t.check(np.array_equal(np.ravel(d[v.name]), r.vals), kind + ':set', '{} {}'.format(d[v.name], r))
      if w.kind == 'default' or (w.kind == 'scalar' and r.kind == 'bool' and len(r.vals) == 2):
        t.check(abs(model.logsum(lp)) < 1e-9, kind + ':total', 'log total {}'.format(model.logsum(lp)))
    elif n is not None:
      m = list(n)[0]
      t.check(np.shape(d[v.name]) == ((abs(m),) if m else ()), kind + ':number', '{} {}'.format(n, d[v.name]))
  return how

def make(t, kinds=None, finite=False):
  pscale = gen.scale(t)
  r = zoo.ref(t, finite=finite)
  if r.kind == 'float' and r.trans: kinds = ['default', 'scalar', 'func', 'lambda', 'partial', 'icon'] if kinds is None else kinds
  w = zoo.law(t, r, pscale, kinds)
  return pscale, r, w, zoo.rv(t, 'x', r, w, pscale)

def default(t):
  pscale, r, w, v = make(t, ['default'], finite=True)
  sig = [ask(t, v, r, w, 'default') for _ in range(t.int(1, 3))]
  x = r.pick(t)
  p = model.true_logp(float(v.eval_prob(x)), gen.norm_scale(pscale))
  t.close(math.exp(p) * r.length, 1., 'default:calibrated')
  t.check(v.def_prob, 'default:flag')
  t.cover('default', r.sig(), gen.skind(pscale), tuple(sig))
  t.sample('{} pscale={}: p({})={}'.format(r, pscale, x, math.exp(p)))

def declared(t):
  pscale, r, w, v = make(t)
  if w.kind == 'default' and r.kind == 'float' and not r.finite: raise Skip()
  sig = [ask(t, v, r, w, w.kind) for _ in range(t.int(1, 3))]
  t.cover('declared', w.kind, r.sig(), gen.skind(pscale), tuple(sig))

def redeclare(t):
  """ The latest declaration holds, whatever was declared before. """
  pscale = gen.scale(t)
  r = zoo.ref(t, finite=True, trans=False)
  w = zoo.law(t, r, pscale, ['default', 'scalar', 'func', 'table'])
  v = zoo.rv(t, 'x', r, w, pscale)
  hist = [w.kind]
  for _ in range(t.int(1, 4)):
    what = t.choice(['prob', 'prob', 'default', 'vset', 'ufun', 'scale', 'vtype'])
    if what == 'prob':
      w = zoo.law(t, r, pscale, ['scalar', 'func', 'lambda', 'table', 'partial'])
      t.call('set_prob({})'.format(w.kind), v.set_prob, w.prob, *w.args, **w.kwds)
    elif what == 'vtype':
      v.vtype = v.vtype
    elif what == 'scale':
      pscale = t.choice([s for s in gen.SCALES if s is not None])
      w = zoo.law(t, r, pscale, ['default', 'scalar', 'func', 'table'])
      t.call('set_prob', v.set_prob, w.prob, *w.args, pscale=pscale, **w.kwds)
    elif what == 'default':
      w = zoo.law(t, r, pscale, ['default'])
      t.call('set_prob()', v.set_prob)
    elif what == 'vset' and r.kind == 'float' and w.kind in ('default', 'func', 'lambda', 'partial'):
      q = zoo.ref(t, kind='float', trans=r.trans or False)
      v.vset = zoo.vset(t, q)[0]
      if w.kind == 'default': w = zoo.law(t, q, pscale, ['default'])
      r = q
    elif what == 'vset' and r.kind == 'int' and w.kind in ('default', 'func', 'lambda', 'partial'):
      q = zoo.ref(t, kind='int')
      v.vset = list(q.vals)
      if w.kind == 'default': w = zoo.law(t, q, pscale, ['default'])
      r = q
    elif what == 'ufun' and r.kind == 'float' and w.kind == 'default':
      ok = [k for k, x in zoo.TRANS.items() if x[2] <= r.lo and r.hi <= x[3]]
      r.trans = t.choice(sorted(ok) + [None])
      t.call('set_ufun', v.set_ufun, zoo.TRANS[r.trans][:2] if r.trans else None)
      w = zoo.law(t, r, pscale, ['default'])
    else: continue
    hist.append(what + ':' + w.kind)
    ask(t, v, r, w, 'redeclare')
  if len(hist) < 2: raise Skip()
  if r.kind == 'bool' and len(r.vals) == 2:
    frequency(t, v, w, 'redeclare')
  t.cover('redeclare', tuple(hist), r.sig(), gen.skind(pscale))

def frequency(t, v, w, kind, n=200):
  """ Boolean samples occur as often as declared. """
  if w.kind not in ('default', 'scalar'): return
  p = math.exp(w.logp(True))
  x = np.ravel(t.call('RV({-n})', v, {-n})[v.name]) if w.kind == 'scalar' else \
      np.array([bool(t.call('RV({0})', v, {0})[v.name]) for _ in range(n)])
  k = int(np.sum(x))
  pv = scipy.stats.binomtest(k, n, p).pvalue
  t.check(pv > P, kind + ':frequency', '{} of {} at p={}'.format(k, n, p))

def sampling(t):
  """ Samples of a variable with a known law follow it, within its limits. """
  pscale = gen.scale(t)
  if t.chance(.3):
    r = zoo.ref(t, kind='bool'); r.vals = [False, True]
    w = zoo.law(t, r, pscale, ['scalar'])
    v = zoo.rv(t, 'x', r, w, pscale)
    frequency(t, v, w, 'bernoulli', n=400)
    t.cover('bernoulli', w.prob, gen.skind(pscale)); return
  r = zoo.ref(t, kind='float', trans=False)
  r.lo, r.hi = sorted([t.int(-12, 12) * .5, t.int(-12, 12) * .5])
  if r.lo == r.hi: r.hi += 2.5
  w = zoo.law(t, r, pscale, ['scipy'])
  v = zoo.rv(t, 'x', r, w, pscale)
  a, b = w.dist.cdf([r.lo, r.hi], **w.dkw)
  if b - a < 1e-4 or b > 1. - 1e-9 or a < 1e-9: raise Skip()
  if t.chance(.5):
    n = t.int(1, 12)
    x = np.ravel(t.call('RV({n})', v, {n})['x'])
    t.check(x.shape == (n,), 'quantiles:number')
    q = zoo.Ref(); q.kind = 'float'; q.lo, q.hi, q.open = a, b, r.open
    t.close(w.dist.cdf(x, **w.dkw), zoo.grid(q, n), 'quantiles', repr(r), rtol=1e-6, atol=1e-9)
    t.cover('quantiles', w.dist.name, r.sig(), n)
  else:
    n = 800
    x = np.ravel(t.call('RV({-n})', v, {-n})['x']) if t.chance(.6) else \
        np.array([float(t.call('RV({0})', v, {0})['x']) for _ in range(200)])
    t.check(np.all((x >= r.lo - 1e-9) & (x <= r.hi + 1e-9)), 'samples:inside', repr(r))
    pv = scipy.stats.kstest((w.dist.cdf(x, **w.dkw) - a) / (b - a), 'uniform').pvalue
    t.check(pv > P, 'samples:law', '{} {} p={}'.format(w.dist.name, w.dkw, pv))
    t.cover('samples', w.dist.name, r.sig())

def prob(t):
  """ Probability objects evaluate on any scale requested. """
  a, b = gen.norm_scale(gen.scale(t)), gen.scale(t)
  r = zoo.ref(t, kind='float', trans=False)
  w = zoo.law(t, r, a, ['scipy', 'func', 'lambda', 'partial'])
  p = t.call('Prob', pb.Prob, w.prob, *w.args, pscale=a, **w.kwds)
  x = given(t, r)
  got = t.call('Prob()', p, x)
  res = t.call('Prob(pscale)', p, x, pscale=b) if b is not None else got
  bb = gen.norm_scale(b) if b is not None else a
  for x_, g, h in zip(np.ravel(x), np.ravel(got), np.ravel(res)):
    want = w.logp(float(x_))
    t.check(model.near(model.true_logp(g, a), want, pscale=a), 'prob', '{} {} {} at {}: {} want {}'.format(w.kind, w.kwds, a, x_, model.true_logp(g, a), want))
    t.check(model.near(model.true_logp(h, bb), want, tol=1e-8, pscale=a if not model.islog(a) else bb), 'prob:rescaled', 'at {} from {} to {}: {} want {}'.format(
      x_, a, b, model.true_logp(h, bb), want))
  t.cover('prob', w.kind, gen.skind(a), gen.skind(b), np.shape(x))

SCI = {  # name: parameters
  'norm': lambda t: {'loc': t.int(-3, 3) * 1., 'scale': t.choice([.5, 2.])}, 'expon': lambda t: {'scale': t.choice([.5, 3.])},
  'gamma': lambda t: {'a': t.choice([1.5, 4.]), 'scale': t.choice([1., 2.])}, 'beta': lambda t: {'a': 2., 'b': t.choice([.5, 3.])},
  't': lambda t: {'df': t.choice([3., 8.]), 'loc': 1.}, 'uniform': lambda t: {'loc': -1., 'scale': t.choice([2., 5.])},
  'lognorm': lambda t: {'s': t.choice([.5, 1.])}, 'weibull_min': lambda t: {'c': t.choice([.8, 2.])},
  'binom': lambda t: {'n': t.int(1, 8), 'p': .3}, 'poisson': lambda t: {'mu': t.choice([.5, 3.])},
  'geom': lambda t: {'p': t.choice([.2, .7])}, 'randint': lambda t: {'low': t.int(-3, 0), 'high': t.int(2, 6)},
}

def by_rv(t, v, dist, args, kw, disc, ps):
  """ Distributions and quantiles of a variable of a SciPy law. """
  d = t.call('RV()', v, np.array([1, 2, 3, 4]) if disc else {5})
  x = np.ravel(d['x'])
  with np.errstate(all='ignore'): want = (dist.logpmf if disc else dist.logpdf)(x, *args, **kw)
  for x_, g, w in zip(x, np.ravel(d.prob), want):
    if not math.isfinite(w): continue
    t.check(model.near(model.true_logp(g, d.pscale), float(w), pscale=d.pscale), 'scipy:rv', 'at {}: {} want {}'.format(x_, g, w))
  if not disc:
    a, b = dist.cdf([0., 5.], *args, **kw)
    if b - a < 1e-3 or b > 1. - 1e-9 or not 0. <= a: return
    t.close(dist.cdf(x, *args, **kw), np.linspace(a, b, 5), 'scipy:rv-quantiles', '{}'.format(x), rtol=1e-6, atol=1e-9)

def scipies(t):
  """ SciPy distributions as probabilities: every member function with the parameters given, on any scale. """
  name = t.choice(sorted(SCI))
  dist = getattr(scipy.stats, name)
  kw = SCI[name](t)
  disc = name in ('binom', 'poisson', 'geom', 'randint')
  args = ()
  if t.chance(.4):      # parameters by position
    shapes = [s.strip() for s in dist.shapes.split(',')] if dist.shapes else []
    full = shapes + ['loc'] + ([] if disc else ['scale'])
    args = tuple(kw.get(k, {'loc': 0., 'scale': 1.}.get(k)) for k in full)
    if t.chance(.5): args = args[:1] if len(shapes) < 2 else args[:len(shapes)]
  kw = {} if args else kw
  ps = t.choice([None, 1., 'log', 0j])
  if t.chance(.5):
    p = t.call('Prob', pb.Prob, dist, *args, pscale=ps, **kw)
    t.note('Prob({}, {}, {}, pscale={})'.format(name, args, kw, ps))
  else:
    p = pb.RV('x', vtype=int if disc else float, vset=[1, 2, 3, 4] if disc else [0., 5.])
    t.call('RV.set_prob', p.set_prob, dist, *args, pscale=ps, **kw)
    t.note('RV.set_prob({}, {}, {}, pscale={})'.format(name, args, kw, ps))
    if t.chance(.5): by_rv(t, p, dist, args, kw, disc, ps)
  log = ps not in (None, 1.)
  x = np.array([t.int(-1, 6) * (1 if disc else .75) for _ in range(t.int(1, 4))])
  if t.chance(.3): x = x[0].item()
  u = np.array([.05, .3, .5, .77, .95]) if t.chance(.7) else .3
  den, logden = (dist.pmf, dist.logpmf) if disc else (dist.pdf, dist.logpdf)
  with np.errstate(all='ignore'):
    want = {('pmf' if disc else 'pdf'): den(x, *args, **kw), ('logpmf' if disc else 'logpdf'): logden(x, *args, **kw), 'prob': den(x, *args, **kw),
            'logp': logden(x, *args, **kw), 'cdf': dist.cdf(x, *args, **kw), 'sf': dist.sf(x, *args, **kw), 'logcdf': dist.logcdf(x, *args, **kw)}
    for key in t.shuffled(list(want)):
      got = t.call('Prob[{}]'.format(key), lambda: p[key](x))
      t.check(np.shape(got) == np.shape(x) and np.allclose(got, want[key], rtol=1e-9, atol=1e-12, equal_nan=True), 'scipy:' + key, '{} at {}: {} want {}'.format(name, x, got, want[key]))
    got = t.call('Prob[ppf]', lambda: p['ppf'](u))
    t.close(got, dist.ppf(u, *args, **kw), 'scipy:ppf', rtol=1e-9)
    for key in ('mean', 'var', 'std', 'median', 'entropy'):
      if t.chance(.3): t.close(t.call('Prob[{}]'.format(key), lambda: p[key]()), getattr(dist, key)(*args, **kw), 'scipy:' + key, rtol=1e-6, atol=1e-9)
    got = t.call('Prob.prob', lambda: p.prob(x))
    t.check(np.allclose(got, want['logp' if log else 'prob'], rtol=1e-9, atol=1e-12, equal_nan=True), 'scipy:member', '{} at {}'.format(got, x))
    got = t.call('Prob()', lambda: pb.Prob.eval_prob(p, x))
    got = np.where(np.asarray(got) < -1e300, -np.inf, got) if log else got
    t.check(np.allclose(got, want['logp' if log else 'prob'], rtol=1e-9, atol=1e-12, equal_nan=True), 'scipy:call', '{} at {}: {}'.format(name, x, got))
  t.check(p.logp == log and p.isscipy and not p.issympy, 'scipy:flags', '{} {}'.format(p.logp, ps))
  n = t.choice([1, 5, 600])
  y = t.call('Prob[rvs]', lambda: p['rvs'](size=n))
  t.check(np.shape(y) == (n,), 'scipy:rvs', 'shape {}'.format(np.shape(y)))
  if n > 100 and not disc:
    t.check(scipy.stats.kstest(y, lambda v: dist.cdf(v, *args, **kw)).pvalue > P, 'scipy:rvs', '{} {} {}'.format(name, args, kw))
  t.cover('scipy', name, len(args), type(p).__name__, log, np.shape(x))

SYM = {  # name: sympy distribution, scipy distribution, parameters, support
  'Normal': ('Normal', lambda m, s: scipy.stats.norm(m, s), lambda t: (t.int(-2, 2), t.choice([1, 2, 3])), (-math.inf, math.inf)),
  'Laplace': ('Laplace', lambda m, s: scipy.stats.laplace(m, s), lambda t: (t.int(-2, 2), t.choice([1, 2, 3])), (-math.inf, math.inf)),
  'Logistic': ('Logistic', lambda m, s: scipy.stats.logistic(m, s), lambda t: (t.int(-2, 2), t.choice([1, 2, 3])), (-math.inf, math.inf)),
  'Cauchy': ('Cauchy', lambda m, s: scipy.stats.cauchy(m, s), lambda t: (t.int(-2, 2), t.choice([1, 2, 3])), (-math.inf, math.inf)),
  'Exponential': ('Exponential', lambda r: scipy.stats.expon(scale=1. / r), lambda t: (t.choice([1, 2]),), (0., math.inf)),
  'Rayleigh': ('Rayleigh', lambda s: scipy.stats.rayleigh(scale=s), lambda t: (t.choice([1, 2]),), (0., math.inf)),
  'LogNormal': ('LogNormal', lambda m, s: scipy.stats.lognorm(s, scale=math.exp(m)), lambda t: (t.int(-1, 1), t.choice([1, 2])), (0., math.inf)),
  'Pareto': ('Pareto', lambda m, a: scipy.stats.pareto(a, scale=m), lambda t: (t.choice([1, 2]), t.choice([1, 3])), (2., math.inf)),
  'Uniform': ('Uniform', lambda a, b: scipy.stats.uniform(a, b - a), lambda t: (-t.int(0, 2), t.int(1, 3)), None),
  'Arcsin': ('Arcsin', lambda a, b: scipy.stats.arcsine(a, b - a), lambda t: (-t.int(0, 2), t.int(1, 3)), None),
  'Kumaraswamy': ('Kumaraswamy', None, lambda t: t.choice([(1, 2), (2, 1), (2, 2)]), (0., 1.)),
  'Beta': ('Beta', lambda a, b: scipy.stats.beta(a, b), lambda t: t.choice([(1, 2), (2, 3), (3, 1)]), (0., 1.)),
  'StudentT': ('StudentT', lambda n: scipy.stats.t(n), lambda t: (t.choice([2, 4]),), (-math.inf, math.inf)),
  'Gamma': ('Gamma', lambda k, h: scipy.stats.gamma(k, scale=h), lambda t: (t.choice([2, 3]), t.choice([1, 2])), (0., math.inf)),
  'Maxwell': ('Maxwell', lambda s: scipy.stats.maxwell(scale=s), lambda t: (t.choice([1, 2]),), (0., math.inf)),
  'Triangular': ('Triangular', lambda a, b, c: scipy.stats.triang((c - a) / (b - a), a, b - a), lambda t: (-2, 3, t.int(-1, 2)), (-2., 3.)),
}
PLAIN = ('Beta', 'StudentT', 'Gamma', 'Maxwell', 'Triangular') # without invertible cumulative functions in sympy
class Kumaraswamy:
  def __init__(self, a, b): self.a, self.b = a, b
  def pdf(self, x): return self.a * self.b * x**(self.a - 1.) * (1. - x**self.a)**(self.b - 1.)
  def logpdf(self, x): return np.log(self.pdf(x))
  def cdf(self, x): return 1. - (1. - x**self.a)**self.b
  def ppf(self, u): return (1. - (1. - u)**(1. / self.b))**(1. / self.a)

def symbolic(t):
  """ SymPy distributions as probabilities: densities, cumulative functions and samples. """
  import sympy, sympy.stats as sy
  log = t.chance(.5)
  kind = t.choice(sorted(SYM))
  name, ref, draw, supp = SYM[kind]
  par = draw(t)
  num = t.choice([float, int, sympy.Integer])
  if supp is None: supp = tuple(float(p) for p in par)
  ref = (ref or Kumaraswamy)(*par)
  lo, hi = (-6. if not math.isfinite(supp[0]) else supp[0]), (8. if not math.isfinite(supp[1]) else supp[1])
  lo, hi = lo + t.choice([.125, .25]) * min(1., hi - lo), hi - t.choice([.125, .25]) * min(1., hi - lo)
  v = pb.RV('x', vtype=float, vset=t.choice([[lo, hi], [(lo,), (hi,)]]))
  t.note('RV {} set_prob(sympy {}{} {}) log={}'.format(v.vset, kind, par, num.__name__, log))
  t.call('set_prob(sympy)', v.set_prob, getattr(sy, name)(v[:], *[num(p) for p in par]), **({'pscale': 'log'} if log else {}))
  pick = lambda: lo + (hi - lo) * t.int(1, 15) / 16.
  x = t.choice([pick(), np.array([pick() for _ in range(4)])])
  d = t.call('RV', v, x)
  lp = lambda z: float(ref.logpdf(z))
  same(t, d, 'x', x, lp, 'log' if log else 1., 'sympy', tol=1e-7)
  p = t.call('Prob', pb.Prob, getattr(sy, name)(sympy.Symbol('x'), *[num(p_) for p_ in par]), **({'pscale': 'log'} if log else {}))
  got = t.call('Prob(values)', p, x)
  t.check(np.shape(got) == np.shape(x), 'sympy:shape', '{} {}'.format(np.shape(got), np.shape(x)))
  t.close(np.asarray(got, dtype=float), ref.logpdf(x) if log else ref.pdf(x), 'sympy:prob', kind, rtol=1e-7)
  keys = p['']
  need = {'prob', 'logp', 'sfun'} if kind in PLAIN else {'prob', 'logp', 'cdf', 'icdf', 'sfun'}
  t.check(need <= set(keys), 'sympy:keys', '{} has only {}'.format(kind, keys))
  for key in ('prob', 'logp'):
    t.close(np.asarray(t.call(key, p[key], x), dtype=float), ref.pdf(x) if key == 'prob' else ref.logpdf(x), 'sympy:' + key, kind, rtol=1e-7, atol=1e-9)
  z = t.call('sfun', p['sfun']) if kind == 'Normal' else 0.
  t.check(math.isfinite(float(z)), 'sympy:sfun', repr(z))
  t.cover('sympy', kind, log, np.shape(x), num.__name__)
  if kind in PLAIN:
    if 'cdf' in keys: t.close(np.asarray(t.call('cdf', p['cdf'], x), dtype=float), ref.cdf(x), 'sympy:cdf', kind, rtol=1e-7, atol=1e-9)
    if 'icdf' in keys: t.close(np.asarray(t.call('icdf', p['icdf'], ref.cdf(x)), dtype=float), x, 'sympy:icdf', kind, rtol=1e-6, atol=1e-9)
    if 'icdf' not in keys: same(t, t.call('RV({n})', v, {3}), 'x', None, lp, 'log' if log else 1., 'sympy-grid', tol=1e-6); return
  t.close(np.asarray(t.call('cdf', p['cdf'], x), dtype=float), ref.cdf(x), 'sympy:cdf', kind, rtol=1e-7, atol=1e-9)
  u = np.array([t.int(1, 63) / 64. for _ in range(3)])
  t.close(np.asarray(t.call('icdf', p['icdf'], u), dtype=float), ref.ppf(u), 'sympy:icdf', kind, rtol=1e-6, atol=1e-9)
  if kind == 'Uniform' and log: # densities that are explicit about their support
    out = supp[0] - 1.
    for z in (out, np.array([out, x if np.ndim(x) == 0 else x[0]])):
      g = np.ravel(np.asarray(t.call('Prob(outside)', p, z), dtype=float))
      t.check(g[0] < -1e300, 'sympy:outside', '{} at {}: {}'.format(kind, z, g))
  a, b = ref.cdf(np.array([lo, hi]))
  n = t.int(1, 9)
  g = t.call('RV({n})', v, {n})
  same(t, g, 'x', None, lp, 'log' if log else 1., 'sympy-grid', tol=1e-6)
  q = zoo.Ref(); q.kind = 'float'; q.lo, q.hi = a, b; q.open = (isinstance(v.vset[0], tuple),) * 2
  t.close(ref.cdf(np.ravel(g['x']).astype(float)), zoo.grid(q, n), 'sympy-grid:quantiles', kind, rtol=1e-6, atol=1e-8)
  g = t.call('RV({-n})', v, {-300})
  z = np.ravel(g['x']).astype(float)
  t.check(z.shape == (300,) and np.all((z >= lo) & (z <= hi)), 'sympy-random:inside', '{} {}'.format(z.min(), z.max()))
  pv = scipy.stats.kstest((ref.cdf(z) - a) / (b - a), 'uniform').pvalue
  t.check(pv > P, 'sympy-random:law', '{} p={}'.format(kind, pv))
  g = t.call('RV({0})', v, {0})
  t.check(np.ndim(g['x']) == 0 and lo <= float(g['x']) <= hi, 'sympy-random:scalar', repr(g['x']))

def uniform(t):
  """ Uniform probabilities of values inside a set of values or of a function. """
  from probayes.rv_utils import uniform_prob
  flt = t.chance(.5)
  ref = sorted({t.int(-4, 4) * (.5 if flt else 1) for _ in range(t.int(2, 4))})
  if len(ref) < 2: raise Skip()
  ref = [float(z) for z in ref] if flt else ref
  ok = (lambda z: ref[0] <= z <= ref[-1]) if flt else (lambda z: z in ref)
  form = t.choice(['list', 'tuple', 'function'])
  inside = list(ref) if form == 'list' else tuple(ref) if form == 'tuple' else \
           (lambda z: np.logical_and(z >= ref[0], z <= ref[-1])) if flt else (lambda z: np.isin(z, ref))
  log = t.chance(.4)
  p0 = t.choice([None, .25, .5])
  kw = {'inside': inside}
  if log: kw['pscale'] = 'log'
  if p0 is not None: kw['prob'] = math.log(p0) if log else p0
  one = lambda: (t.int(-10, 10) * .5 if flt else t.int(-5, 5))
  args = [t.choice([one(), np.array([one() for _ in range(3)])]) for _ in range(t.choice([1, 1, 2]))]
  t.note('uniform_prob({}, {})'.format(args, {k: (v if k != 'inside' else (form, ref)) for k, v in kw.items()}))
  got = t.call('uniform_prob', uniform_prob, *args, **kw)
  bc = np.broadcast_arrays(*args)
  t.check(np.shape(got) == bc[0].shape, 'uniform:shape', '{}'.format(got))
  for g, *zs in zip(np.ravel(got), *[np.ravel(z) for z in bc]):
    want = math.log(p0 or 1.) if all(ok(z) for z in zs) else -math.inf
    t.check(model.near(model.true_logp(g, 0j if log else 1.), want, pscale=0j if log else 1.), 'uniform:prob', 'at {}: {} want log {}'.format(zs, g, want))
  t.cover('uniform', form, flt, log, p0, len(args))

def refuse(t):
  how = t.choice(['table', 'pfun', 'tran', 'tranf'])
  if how == 'table': t.rejects('table of wrong length', pb.RV, 'x', vset=[1, 2, 3], prob=np.array([.5, .5]), _kind=how)
  elif how == 'pfun':
    v = pb.RV('x', vset=[1., 2.]); v.set_ufun((np.log, np.exp))
    t.rejects('CDF with transformation', v.set_pfun, (np.exp, np.log), _kind=how)
  elif how == 'tran': t.rejects('matrix of wrong size', pb.RV('x', vset=[1, 2, 3]).set_tran, np.eye(2), _kind=how)
  else: t.rejects('matrix for a float', pb.RV('x', vset=[1., 3.]).set_tran, np.eye(2), _kind=how)
  t.cover('refuse', how)

STAGES = {
  'default':   (default, 2500, 25000),
  'declared':  (declared, 3000, 30000),
  'redeclare': (redeclare, 1200, 12000),
  'sampling':  (sampling, 200, 2000),
  'prob':      (prob, 1500, 15000),
  'scipy':     (scipies, 400, 4000),
  'symbolic':  (symbolic, 24, 300),
  'uniform':   (uniform, 400, 4000),
  'refuse':    (refuse, 40, 100),
}
