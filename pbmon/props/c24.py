""" C24: changes of variables keep probability calibrated. """
import math
import numpy as np
import scipy.stats, scipy.special
import sympy
import probayes as pb
from pbmon import gen, model, zoo
from pbmon.core import Skip

RULE = ('a case declares a variable with a transformation (functions with keywords, or a symbolic expression) over a random '
        'valid set and probability scale, and compares values, densities, increments and interval masses with the reference '
        'transformation; cases count by transformation, set and route')
ASSUMPTIONS = ['transformations are monotonic and continuous over the set',
               'keywords of transforming functions are the same for the transformation and its inverse',
               'integrals are compared to 1e-6 by Gauss-Legendre quadrature of the densities observed',
               'random samples are judged by tests with a false-alarm probability below 1e-9 each']
P = 1e-9
S = sympy

class Map:
  """ A transformation: forward, inverse, symbolic form, admissible limits. """
  def __init__(self, name, fwd, inv, sym, lo, hi, ends=(False, False)):
    self.name, self.fwd, self.inv, self.sym, self.lo, self.hi, self.ends = name, fwd, inv, sym, lo, hi, ends

def _logit(p): return np.log(p / (1. - p))
def _expit(u): return 1. / (1. + np.exp(-u))

# ends: whether an infinite lower/upper limit maps to a finite one
SYM = [
  Map('log', np.log, np.exp, lambda x: S.log(x), .05, 50.),
  Map('neglog', lambda x: -np.log(x), lambda u: np.exp(-u), lambda x: -S.log(x), .05, 50.),
  Map('square+', np.square, np.sqrt, lambda x: x**2, .1, 6.),
  Map('square-', np.square, lambda u: -np.sqrt(u), lambda x: x**2, -6., -.1),
  Map('shift-square', lambda x: (x - 2.)**2, lambda u: 2. - np.sqrt(u), lambda x: (x - 2)**2, -4., 1.9),
  Map('cube', lambda x: x**3, np.cbrt, lambda x: x**3, .1, 4.),
  Map('sqrt', np.sqrt, np.square, lambda x: S.sqrt(x), .05, 20.),
  Map('recip', lambda x: 1. / x, lambda u: 1. / u, lambda x: 1 / x, .1, 20., (False, True)),
  Map('recip-', lambda x: 1. / x, lambda u: 1. / u, lambda x: 1 / x, -20., -.1, (True, False)),
  Map('exp', np.exp, np.log, lambda x: S.exp(x), -3., 3.),
  Map('decay', lambda x: np.exp(-x / 2.), lambda u: -2. * np.log(u), lambda x: S.exp(-x / 2), -3., 4., (False, True)),
  Map('affine', lambda x: 2. * x - 3., lambda u: (u + 3.) / 2., lambda x: 2 * x - 3, -30., 30.),
  Map('negate', lambda x: 1. - 1.5 * x, lambda u: (1. - u) / 1.5, lambda x: 1 - 1.5 * x, -30., 30.),
  Map('arcsine', lambda x: np.arcsin(np.sqrt(x)), lambda u: np.sin(u)**2, lambda x: S.asin(S.sqrt(x)), .02, .98),
  Map('cos', np.cos, np.arccos, lambda x: S.cos(x), .1, 3.),
  Map('sin', np.sin, np.arcsin, lambda x: S.sin(x), -1.4, 1.4),
  Map('atan', np.arctan, np.tan, lambda x: S.atan(x), -4., 4., (True, True)),
  Map('tanh', np.tanh, np.arctanh, lambda x: S.tanh(x), -3., 3., (True, True)),
  Map('logit', _logit, _expit, lambda x: S.log(x / (1 - x)), .03, .97),
  Map('logistic', _expit, _logit, lambda x: 1 / (1 + S.exp(-x)), -4., 4., (True, True)),
  Map('sinh', np.sinh, np.arcsinh, lambda x: S.sinh(x), -3., 3.),
  Map('cosh+', np.cosh, np.arccosh, lambda x: S.cosh(x), .2, 3.),
  Map('cosh-', np.cosh, lambda u: -np.arccosh(u), lambda x: S.cosh(x), -3., -.2),
  Map('quartic', lambda x: x**4, lambda u: -u**.25, lambda x: x**4, -3., -.2),
  Map('erf', scipy.special.erf, scipy.special.erfinv, lambda x: S.erf(x), -1.5, 1.5),
  Map('log-square', lambda x: np.log(1. + x**2), lambda u: np.sqrt(np.expm1(u)), lambda x: S.log(1 + x**2), .2, 6.),
]
SLOW_INF = ('erf',)

def fun(t):
  """ Functions with keywords: (Map, pair of functions, keywords). """
  how = t.choice(['power', 'log', 'affine', 'atan', 'tanh', 'expit', 'cdf', 'decay', 'plain'])
  if how == 'power':
    p = t.choice([.5, 2., 3., -1., -2.])
    f, g, kw = (lambda x, p: x**p), (lambda u, p: u**(1. / p)), {'p': p}
    m = Map(how, lambda x: x**p, lambda u: u**(1. / p), None, .2, 9.)
  elif how == 'log':
    b = t.choice([2., 10., .5])
    f, g, kw = (lambda x, base=2.718: np.log(x) / np.log(base)), (lambda u, base=2.718: base**u), {'base': b}
    m = Map(how, lambda x: np.log(x) / np.log(b), lambda u: b**u, None, .05, 50.)
  elif how == 'affine':
    a, c = t.choice([.1, 4., -2.]), t.int(-5, 5) * 1.
    f, g, kw = (lambda x, a, c: a * x + c), (lambda u, a, c: (u - c) / a), {'a': a, 'c': c}
    m = Map(how, lambda x: a * x + c, lambda u: (u - c) / a, None, -30., 30.)
  elif how in ('atan', 'tanh', 'expit'):
    w, c = t.choice([1., 2.5, -1.5]), t.int(-2, 2) * 1.
    F, G = {'atan': (np.arctan, np.tan), 'tanh': (np.tanh, np.arctanh), 'expit': (_expit, _logit)}[how]
    f, g, kw = (lambda x, w, c: F((x - c) / w)), (lambda u, w, c: c + w * G(u)), {'w': w, 'c': c}
    m = Map(how, lambda x: F((x - c) / w), lambda u: c + w * G(u), None, -3. * abs(w) + c, 3. * abs(w) + c, (True, True))
  elif how == 'cdf':
    l, s = t.int(-2, 2) * 1., t.choice([.5, 1., 3.])
    f, g, kw = scipy.stats.norm.cdf, scipy.stats.norm.ppf, {'loc': l, 'scale': s}
    m = Map(how, lambda x: scipy.stats.norm.cdf(x, l, s), lambda u: scipy.stats.norm.ppf(u, l, s), None, l - 3. * s, l + 3. * s, (True, True))
  elif how == 'decay':
    k = t.choice([.5, 1., 2.])
    f, g, kw = (lambda x, k: np.exp(-k * x)), (lambda u, k: -np.log(u) / k), {'k': k}
    m = Map(how, lambda x: np.exp(-k * x), lambda u: -np.log(u) / k, None, -2., 3. / k, (False, True))
  else:
    m = t.choice(SYM)
    f, g, kw = m.fwd, m.inv, {}
    if m.name == 'erf': f, g = (lambda x: scipy.special.erf(x)), (lambda u: scipy.special.erfinv(u))
    if hasattr(f, '__name__') and hasattr(g, '__name__') and (f.__name__ == '<lambda>') != (g.__name__ == '<lambda>'):
      a, b = f, g
      f, g = (lambda x: a(x)), (lambda u: b(u))
  return m, (f, g), kw

class Ref(zoo.Ref):
  kind = 'float'
  def __init__(self, m): self.m = m
  def fwd(self, x): return self.m.fwd(x)
  def inv(self, u): return self.m.inv(u)
  def sig(self): return (self.m.name, self.open, math.isfinite(self.lo), math.isfinite(self.hi))
  def __repr__(self): return '{} over {} {} open {}'.format(self.m.name, self.lo, self.hi, self.open)

def declare(t, m, infinite=True):
  """ Limits within the admissible ones; possibly infinite if these transform to finite ones. """
  r = Ref(m)
  w = m.hi - m.lo
  r.lo = m.lo + w * (.0 if t.chance(.15) else .45 * t.rng.random())
  r.hi = m.hi - w * (.0 if t.chance(.15) else .45 * t.rng.random())
  r.open = t.choice([(False, False), (True, True), (True, False), (False, True)])
  if infinite and m.ends[0] and t.chance(.4): r.lo, r.open = -math.inf, (True, r.open[1])
  if infinite and m.ends[1] and t.chance(.4): r.hi, r.open = math.inf, (r.open[0], True)
  return r

def make(t, r, cls, prepare, pscale=None):
  """ The variable, with its set, transformation and scale declared in any order. """
  name = t.choice(['x', 'mu', 'y_1'])
  s, vt = zoo.vset(t, r)
  how = t.choice(['set-first', 'set-first', 'set-later', 'set-twice', 'ufun-twice'])
  if r.lo == -math.inf and r.hi == math.inf: how = 'set-first'
  if cls is pb.RV and pscale is not None and t.chance(.5):
    kw, later = {'pscale': pscale}, False
  else:
    kw, later = {}, pscale is not None
  t.note('{}({!r}, {!r}) {} {} pscale={}'.format(cls.__name__, name, s, how, r, pscale))
  if how == 'set-later':          # limits valid for the transformation are replaced
    mid = .5 * (r.m.lo + r.m.hi)
    v = t.call(cls.__name__, cls, name, vset=[mid, r.m.hi], vtype=float, **kw)
  elif how == 'set-twice':
    v = t.call(cls.__name__, cls, name, vset=s, vtype=float, **kw)
    v.vset = (-1., 2.)
    v.vset = s
  else:
    v = t.call(cls.__name__, cls, name, vset=s, vtype=float, **kw)
  if how == 'ufun-twice':
    t.call('set_ufun', v.set_ufun, t.choice([None, (lambda x: 2. * x, lambda u: .5 * u)]))
  if later and t.chance(.5): t.call('set_prob', v.set_prob, None, pscale=pscale); later = False
  uf, ukw = prepare(v)
  t.call('set_ufun', v.set_ufun, uf, **ukw)
  if how == 'set-later': v.vset = s if s is not None else [-math.inf, math.inf]
  if later: t.call('set_prob', v.set_prob, None, pscale=pscale)
  return v, how

def interior(t, r, n):
  """ Values inside the set. """
  lo = r.lo if math.isfinite(r.lo) else max(r.m.lo, -1e3) if r.m.lo < r.hi else r.hi - 5.
  hi = r.hi if math.isfinite(r.hi) else min(r.m.hi, 1e3) if r.m.hi > r.lo else r.lo + 5.
  if not math.isfinite(r.lo): lo = min(lo, hi - 1.)
  if not math.isfinite(r.hi): hi = max(hi, lo + 1.)
  return np.sort(lo + (hi - lo) * (.02 + .96 * np.asarray(t.np.random(n))))

def shapes(t, x):
  return t.choice([x, x.reshape(-1, 1), x.reshape(1, -1)])

def roundtrip(t, v, r, tol=1e-6):
  xs = interior(t, r, t.int(2, 6))
  u = r.fwd(xs)
  a = shapes(t, xs)
  got = t.call('ufun[0]', v.ufun[0], a)
  t.check(np.shape(got) == a.shape, 'shape', '{} {}'.format(np.shape(got), a.shape))
  t.close(np.ravel(got), u, 'forward', rtol=1e-8, atol=1e-8)
  for i in (1, -1):
    back = t.call('ufun[-1]', v.ufun[i], got)
    t.close(np.ravel(back), xs, 'inverse', '{} of {}'.format(i, r), rtol=tol, atol=tol)
  x = float(xs[0])
  one = t.call('ufun[0]', v.ufun[0], x)
  t.check(np.ndim(one) == 0, 'shape', repr(one))
  t.close(one, u[0], 'forward', rtol=1e-8, atol=1e-8)
  t.close(t.call('ufun[-1]', v.ufun[-1], one), x, 'inverse', repr(r), rtol=tol, atol=tol)
  return xs

def attributes(t, v, r, cov=True):
  """ Limits and lengths. """
  t.close(v.vlims, [r.lo, r.hi], 'vlims', rtol=0., atol=0.)
  with np.errstate(all='ignore'):
    ends = sorted([float(r.fwd(r.lo)), float(r.fwd(r.hi))]) if cov else [r.lo, r.hi]
  t.close(sorted(v.ulims), ends, 'ulims', rtol=1e-8, atol=1e-9)
  t.close(v.length, ends[1] - ends[0], 'length', rtol=1e-8, atol=1e-9)
  if math.isfinite(ends[1] - ends[0]):
    t.check(bool(v.isfinite), 'isfinite')
    t.close(v.lhv, math.log(ends[1] - ends[0]), 'lhv', rtol=1e-8, atol=1e-8)
  else:
    t.check(not v.isfinite, 'isfinite')
  for x in list(interior(t, r, 2)) + [r.lo, r.hi]:
    t.check(bool(v.inside(x)) == r.inside(x), 'inside', '{} in {}'.format(x, r))
  return ends[1] - ends[0]

def grids(t, v, r):
  """ Values are evenly spaced over transformed coordinates. """
  n = t.int(2, 9)
  d = t.call('Variable()', v, {n})
  got = np.ravel(d[v.name])
  want = zoo.grid(r, n)
  t.close(got, want, 'grid', repr(r), rtol=1e-6, atol=1e-6)
  t.check(all(r.lo <= x <= r.hi for x in got), 'grid:inside', '{} {}'.format(r, got))
  return d, want

def samples(t, v, r, many=True):
  n = 2000
  xs = np.ravel(t.call('Variable()', v, {-n})[v.name])
  if t.chance(.3): xs = np.append(xs[:-20], [float(t.call('Variable()', v, {0})[v.name]) for _ in range(20)])
  t.check(xs.size == n and all(r.lo <= x <= r.hi for x in xs), 'samples:inside', repr(r))
  with np.errstate(all='ignore'):
    a, b = sorted([float(r.fwd(r.lo)), float(r.fwd(r.hi))])
  u = (r.fwd(xs) - a) / (b - a)
  p = scipy.stats.kstest(u, 'uniform').pvalue
  t.check(p > P, 'samples:uniform', '{} p={}'.format(r, p))

def density(t, v, r, ps):
  """ Uniform over transformed coordinates. """
  length = r.length
  ps = gen.norm_scale(ps)
  want = model.stored(-math.log(length), ps)
  xs = interior(t, r, t.int(2, 5))
  d = t.call('RV()', v, xs)
  tab = model.read(d)
  for x in xs:
    t.close(np.ravel(d.prob)[list(xs).index(x)], want, 'density', repr(r), rtol=1e-8, atol=1e-9)
  t.close(t.call('RV()', v, float(xs[0])).prob, want, 'density', repr(r), rtol=1e-8, atol=1e-9)
  outs = [x for x in (r.lo - .01, r.hi + .01, r.lo if r.open[0] else None, r.hi if r.open[1] else None)
          if x is not None and math.isfinite(x)]
  if outs:
    x = t.choice(outs)
    p = t.call('RV()', v, x).prob
    t.check(p < -1e300 if model.islog(ps) else p == 0, 'density:outside', '{} at {}: {}'.format(r, x, p))
  # total over a grid of cells in transformed coordinates
  n = t.int(3, 30)
  a, b = [float(r.fwd(l)) for l in (r.lo, r.hi)]
  mids = r.inv(a + (b - a) * (np.arange(n) + .5) / n)
  q = t.call('RV()', v, mids)
  total = math.fsum(math.exp(model.true_logp(z, ps)) for z in np.ravel(q.prob)) * abs(b - a) / n
  t.close(total, 1., 'total', repr(r), rtol=1e-7)
  # default transitions do not depend on predecessors
  s = t.call('RV.step', v.step, float(xs[0]), float(xs[-1]))
  t.close(s.prob, want, 'transition', repr(r), rtol=1e-8, atol=1e-9)

def moves(t, v, r, cov=True):
  """ Increments are made in transformed coordinates. """
  x = float(interior(t, r, 1)[0])
  y = float(interior(t, r, 1)[0])
  fwd, inv = (r.fwd, r.inv) if cov else ((lambda z: z), (lambda z: z))
  d = float(fwd(y) - fwd(x)) * t.choice([1., .5])
  want = float(inv(fwd(x) + d))
  length = r.length if cov else r.hi - r.lo
  route = t.choice(['set', 'arg', 'Delta', 'array'] + ['scale'] * 2 * math.isfinite(length))
  if route == 'scale':     # in proportion to the length of transformed coordinates
    f = float(fwd(y) - fwd(x)) / length * t.choice([1., .5])
    want = float(inv(fwd(x) + f * length))
    t.call('set_delta', v.set_delta, f, scale=True)
    got = t.call('apply_delta', v.apply_delta, x)
  elif route == 'set':
    t.call('set_delta', v.set_delta, d)
    got = t.call('apply_delta', v.apply_delta, x)
  elif route == 'arg': got = t.call('apply_delta', v.apply_delta, x, d)
  elif route == 'Delta': got = t.call('apply_delta', v.apply_delta, x, v.Delta(d))
  else:
    got = t.call('apply_delta', v.apply_delta, np.array([x, x]), d)
    t.check(np.shape(got) == (2,), 'move:shape', repr(got)); got = got[0]
  t.close(got, want, 'move', '{} from {} by {}'.format(r, x, d), rtol=1e-6, atol=1e-6)

def functions(t):
  m, uf, kw = fun(t)
  r = declare(t, m)
  ps = gen.scale(t) if t.chance(.6) else None
  v, how = make(t, r, pb.RV, lambda v: (uf, kw), ps)
  t.check(bool(v.is_stochastic), 'stochastic')
  attributes(t, v, r); roundtrip(t, v, r)
  grids(t, v, r); density(t, v, r, ps); moves(t, v, r)
  if t.chance(.4): samples(t, v, r)
  t.cover('functions', how, r.sig(), sorted(kw), gen.skind(ps))
  t.sample(repr(r))

def symbolic(t):
  m = t.choice(SYM)
  r = declare(t, m, infinite=m.name not in SLOW_INF)
  rv = t.chance(.8)
  ps = gen.scale(t) if rv and t.chance(.6) else None
  use = t.choice(['[:]', '~', 'icon'])
  def prepare(v):
    return m.sym({'[:]': lambda: v[:], '~': lambda: ~v, 'icon': lambda: v.icon}[use]()), {}
  if use == '~' : pass
  v, how = make(t, r, pb.RV if rv else pb.Variable, prepare, ps)
  attributes(t, v, r); roundtrip(t, v, r); grids(t, v, r)
  t.check(isinstance(~v, sympy.Symbol) and ~v != v[:] and v.inverse() == ~v, 'inverse-symbol', repr(~v))
  # the inverse expression undoes the transformation
  x = float(interior(t, r, 1)[0])
  back = complex(v.ufun.invexpr.expr.subs({~v: float(r.fwd(x))}).evalf())
  t.check(abs(back - x) < 1e-6 * (1. + abs(x)), 'inverse-expression', '{} for {}'.format(back, x))
  if rv: density(t, v, r, ps)
  moves(t, v, r)
  if t.chance(.5): samples(t, v, r)
  t.cover('symbolic', how, r.sig(), rv, gen.skind(ps), use)
  t.sample('{} {}'.format(r, v.ufun.invexpr))

GL = np.polynomial.legendre.leggauss(40)

def unchanged(t):
  """ Symbolic transformations that define the density of the original variable. """
  m = t.choice(SYM)
  r = declare(t, m, infinite=False)
  ps = gen.scale(t) if t.chance(.6) else None
  v, how = make(t, r, pb.RV, lambda v: (m.sym(v[:]), {'no_ucov': True}), ps)
  ps = gen.norm_scale(ps)
  plain = Ref(Map('none', lambda x: x, lambda u: u, None, r.m.lo, r.m.hi)); plain.lo, plain.hi, plain.open = r.lo, r.hi, r.open
  attributes(t, v, plain); grids(t, v, plain); moves(t, v, r, cov=False); roundtrip(t, v, r)
  # the mass of any interval is its share of transformed length
  u0, u1 = float(r.fwd(r.lo)), float(r.fwd(r.hi))
  cuts = sorted(float(r.inv(u0 + (u1 - u0) * f)) for f in [k / 8. for k in range(1, 8)] + [t.rng.random() for _ in range(2)])
  cuts = [r.lo] + cuts + [r.hi]
  mass = 0.
  for a, b in zip(cuts[:-1], cuts[1:]):
    if b - a < 1e-6: continue
    x = .5 * (b + a) + .5 * (b - a) * GL[0]
    d = t.call('RV()', v, x)
    p = np.array([math.exp(model.true_logp(z, ps)) for z in np.ravel(d.prob)])
    got = float(np.sum(GL[1] * p)) * .5 * (b - a)
    t.close(got, abs(float(r.fwd(b) - r.fwd(a))) / r.length, 'mass', '{} in {}..{}'.format(r, a, b), rtol=1e-6, atol=1e-6)
    mass += got
  t.close(mass, 1., 'total', repr(r), rtol=1e-5)
  # transitions have the density of their successors
  xs = interior(t, r, 3); ys = interior(t, r, 2)
  s = t.call('RV.step', v.step, xs, ys)
  d = np.ravel(t.call('RV()', v, ys).prob)
  t.check(np.shape(s.prob) == (2, 3), 'transition:shape', np.shape(s.prob))
  t.close(s.prob, np.tile(d[:, None], (1, 3)), 'transition', rtol=1e-9, atol=1e-12)
  t.cover('unchanged', how, r.sig(), gen.skind(ps))

def fields(t):
  """ Variables of a field each keep their own coordinates. """
  n = t.int(2, 3)
  names = 'xyz'[:n]
  refs, rvs = [], []
  for k in names:
    m, uf, kw = fun(t)
    r = declare(t, m)
    s, vt = zoo.vset(t, r)
    v = t.call('RV', pb.RV, k, vset=s, vtype=float)
    if t.chance(.2):
      r.m = Map('none', lambda x: x, lambda u: u, None, m.lo, m.hi)
      if not (math.isfinite(r.lo) and math.isfinite(r.hi)): raise Skip()
    else:
      t.call('set_ufun', v.set_ufun, uf, **kw)
    t.note('{}: {}'.format(k, r))
    refs.append(r); rvs.append(v)
  how = t.choice(['rf', 'and', 'sd', 'chain'])
  if how == 'rf': f = t.call('RF', pb.RF, *rvs)
  elif how == 'and':
    f = rvs[0]
    for v in rvs[1:]: f = t.call('&', lambda a, b: a & b, f, v)
  elif how == 'sd': f = t.call('SD', pb.SD, *[pb.RF(*rvs)])
  else: f = t.call('SD', pb.SD, pb.RF(*rvs))
  sizes = [t.int(2, 5) for _ in names]
  d = t.call('field', f, {k: {c} for k, c in zip(names, sizes)})
  want = -math.fsum(math.log(r.length) for r in refs)
  t.check(sorted(d.shape) == sorted(sizes) and set(d.keys()) == set(names), 'field:shape', repr(d.shape))
  t.close(d.prob, np.full(d.shape, math.exp(want)), 'field:density', rtol=1e-7)
  for k, r, c in zip(names, refs, sizes):
    t.close(np.ravel(d[k]), zoo.grid(r, c), 'field:grid', repr(r), rtol=1e-6, atol=1e-6)
  fin = [(k, r, c) for k, r, c in zip(names, refs, sizes)]
  if t.chance(.4):      # increments in proportion to lengths of transformed coordinates
    g = f
    c = t.choice([-1., 1.]) * t.choice([.1, .03])
    t.call('set_delta', g.set_delta, c, scale=True)
    x = {k: float(r.inv(.5 * (float(r.fwd(r.lo)) + float(r.fwd(r.hi))))) for k, r in zip(names, refs)}
    y = t.call('apply_delta', g.apply_delta, dict(x))
    for k, r in zip(names, refs):
      t.close(y[k], float(r.inv(float(r.fwd(x[k])) + c * r.length)), 'field:move', repr(r), rtol=1e-6, atol=1e-6)
  e = t.call('expectation', d.expectation)
  for k, r, c in fin:
    g = zoo.grid(r, c)
    if np.all(np.isfinite(g)):
      t.close(e[k], float(np.mean(g)), 'field:expectation', repr(r), rtol=1e-6, atol=1e-6)
  if t.chance(.3):      # random samples: each uniform, and independent of the others
    s = t.call('field', f, {k: {-60} for k in names})
    us = {}
    for k, r in zip(names, refs):
      xs = np.ravel(s[k])
      a, b = sorted([float(r.fwd(r.lo)), float(r.fwd(r.hi))])
      us[k] = (r.fwd(xs) - a) / (b - a)
      t.check(xs.size == 60 and scipy.stats.kstest(us[k], 'uniform').pvalue > P, 'field:uniform', repr(r))
  t.cover('fields', how, tuple(r.m.name for r in refs))

STAGES = {
  'functions': (functions, 1200, 15000),
  'fields': (fields, 400, 5000),
  'symbolic': (symbolic, 80, 1000),
  'unchanged': (unchanged, 40, 500),
}
