""" Random variables, fields and models with independently known references. """
import collections, math
import numpy as np
import sympy
import probayes as pb
from pbmon import gen
from pbmon.core import Skip

def _cube(x): return x**3

# name: (forward, inverse, lowest, highest admissible limit, increasing, whole line invertible)
TRANS = {
  'log':    (np.log, np.exp, .01, 60., True, True),
  'affine': (lambda x: 2.5 * x - 1., lambda u: (u + 1.) / 2.5, -40., 40., True, True),
  'neg':    (lambda x: -3. * x, lambda u: u / -3., -40., 40., False, True),
  'cube':   (_cube, np.cbrt, -5., 5., True, True),
  'cbrt':   (np.cbrt, _cube, -30., 30., True, True),
  'exp':    (np.exp, np.log, -4., 4., True, False),
  'sqrt':   (np.sqrt, np.square, .0, 40., True, False),
  'recip':  (lambda x: 1. / x, lambda u: 1. / u, .05, 20., False, False),
  'neglog': (lambda x: -np.log(x), lambda u: np.exp(-u), .01, 60., False, True),
}
DERIV = {   # |du/dx|
  'log': lambda x: 1. / x, 'affine': lambda x: 2.5 + 0. * x, 'neg': lambda x: 3. + 0. * x,
  'cube': lambda x: 3. * x**2, 'cbrt': lambda x: np.abs(x)**(-2. / 3.) / 3., 'exp': np.exp,
  'sqrt': lambda x: .5 / np.sqrt(x), 'recip': lambda x: 1. / x**2, 'neglog': lambda x: 1. / x,
}

class Ref:
  """ What a variable was declared to be. """
  kind = None      # 'bool', 'int' or 'float'
  vals = None      # declared values, in order (discrete)
  lo = hi = None   # limits (float)
  open = (False, False)
  trans = None
  def inside(self, x):
    if self.kind != 'float':
      return x in set(self.vals)
    above = x > self.lo if self.open[0] else x >= self.lo
    below = x < self.hi if self.open[1] else x <= self.hi
    return bool(above and below)
  def fwd(self, x):
    return TRANS[self.trans][0](x) if self.trans else x
  def inv(self, u):
    return TRANS[self.trans][1](u) if self.trans else u
  @property
  def length(self):
    if self.kind != 'float': return len(self.vals)
    with np.errstate(all='ignore'):
      return abs(self.fwd(self.hi) - self.fwd(self.lo))
  @property
  def finite(self):
    return self.kind == 'float' and bool(np.isfinite(self.length))
  def pick(self, t, inside=True):
    """ A value in (or out of) the set. """
    if self.kind != 'float':
      if inside: return t.choice(self.vals)
      cand = [v for v in range(-60, 60) if v not in set(self.vals)]
      return t.choice(cand) if self.kind == 'int' else None
    lo = self.lo if math.isfinite(self.lo) else min(-10., self.hi - 10. if math.isfinite(self.hi) else -10.)
    hi = self.hi if math.isfinite(self.hi) else max(10., self.lo + 10. if math.isfinite(self.lo) else 10.)
    if inside:
      if not self.open[0] and t.chance(.1) and math.isfinite(self.lo): return self.lo
      if not self.open[1] and t.chance(.1) and math.isfinite(self.hi): return self.hi
      return lo + (hi - lo) * (.02 + .96 * t.rng.random())
    opts = []
    if math.isfinite(self.lo):
      opts += [self.lo - 10. * t.rng.random() - 1e-6] + ([self.lo] if self.open[0] else [])
    if math.isfinite(self.hi):
      opts += [self.hi + 10. * t.rng.random() + 1e-6] + ([self.hi] if self.open[1] else [])
    return t.choice(opts) if opts else None
  def sig(self):
    if self.kind != 'float': return (self.kind, min(4, len(self.vals)))
    return (self.kind, self.open, math.isfinite(self.lo), math.isfinite(self.hi), self.trans)
  def __repr__(self):
    if self.kind != 'float': return '{}{}'.format(self.kind, self.vals)
    return 'float{}{},{}{}{}'.format('(' if self.open[0] else '[', self.lo, self.hi, ')' if self.open[1] else ']',
                                     ' via ' + self.trans if self.trans else '')

def ref(t, kind=None, finite=True, trans=None, contiguous=False):
  """ A random declaration. trans: None for random choice, False for none. """
  r = Ref()
  r.kind = kind or t.choice(['bool', 'int', 'int', 'float', 'float', 'float'])
  if r.kind == 'bool':
    r.vals = [False, True] if t.chance(.8) else [t.chance(.5)]
  elif r.kind == 'int':
    n = t.int(1, 6)
    if contiguous or t.chance(.4):
      lo = t.int(-6, 6); r.vals = list(range(lo, lo + n))
    else:
      r.vals = sorted(t.rng.sample(range(-9, 30), n))
  else:
    if trans is None:
      r.trans = t.choice(sorted(TRANS)) if t.chance(.4) else None
    else:
      r.trans = trans or None
    a, b = (-40., 40.) if not r.trans else TRANS[r.trans][2:4]
    if t.chance(.3) and b - a > 4:
      lo = float(t.int(math.ceil(a), math.floor(b) - 2)); hi = float(t.int(int(lo) + 1, math.floor(b)))
    else:
      lo, hi = sorted([a + (b - a) * t.rng.random(), a + (b - a) * t.rng.random()])
      if hi - lo < 1e-2 * (b - a): hi = min(b, lo + .1 * (b - a)); lo = min(lo, hi - .05 * (b - a))
    r.lo, r.hi = lo, hi
    r.open = t.choice([(False, False), (True, True), (True, False), (False, True)])
    if not finite and not r.trans and t.chance(.4):
      which = t.int(0, 2)
      if which != 1: r.lo = -math.inf; r.open = (True, r.open[1])
      if which != 0: r.hi = math.inf; r.open = (r.open[0], True)
  return r

def vset(t, r):
  """ (vset, vtype): one of the spellings of a declaration. """
  if r.kind == 'bool':
    if r.vals == [False, True] and t.chance(.4):
      return t.choice([(None, bool), (None, None), ([False, True], bool), ({False, True}, None)])
    return t.choice([list(r.vals), set(r.vals)]), t.choice([bool, None])
  if r.kind == 'int':
    v = list(r.vals)
    opts = [v, set(v), np.array(v), np.array(t.shuffled(v))]
    if v == list(range(v[0], v[0] + len(v))): opts.append(range(v[0], v[0] + len(v)))
    if v == [0, 1] and t.chance(.3): return None, int
    return t.choice(opts), t.choice([int, None])
  lim = []
  for x, o in zip((r.lo, r.hi), r.open):
    x = {math.inf: pb.OO, -math.inf: -pb.OO}.get(x, x) if hasattr(pb, 'OO') else \
        {math.inf: sympy.oo, -math.inf: -sympy.oo}.get(x, x)
    if isinstance(x, float) and x == int(x) and t.chance(.5): x = int(x)
    lim.append((x,) if o else x)
  if r.open == (True, True) and t.chance(.5) and math.isfinite(r.lo) and math.isfinite(r.hi):
    pair = (lim[0][0], lim[1][0])
    return (pair if t.chance(.5) else pair[::-1]), float
  if t.chance(.3) and math.isfinite(r.lo) and math.isfinite(r.hi): lim = lim[::-1]
  if r.lo == -math.inf and r.hi == math.inf and t.chance(.5): return None, float
  return lim, float

def build(t, name, r, cls=None, **kwds):
  """ The declared variable. """
  cls = cls or pb.Variable
  s, vt = vset(t, r)
  t.note('{}({!r}, vset={!r}, vtype={}) {}'.format(cls.__name__, name, s, vt, r.trans or ''))
  if t.chance(.2) and s is not None and isinstance(s, (list, set, range)):
    var = t.call(cls.__name__, cls, name, vt, s, **kwds)    # positions may be swapped
  else:
    var = t.call(cls.__name__, cls, name, vset=s, vtype=vt, **kwds)
  if r.trans:
    t.call('set_ufun', var.set_ufun, TRANS[r.trans][:2])
  return var

def grid(r, n):
  """ The n-point grid documented for a float variable. """
  a, b = r.fwd(r.lo), r.fwd(r.hi)
  if r.open == (True, True): u = np.linspace(a, b, n + 2)[1:-1]
  elif r.open[0]: u = np.linspace(a, b, n + 1)[1:]
  elif r.open[1]: u = np.linspace(a, b, n + 1)[:-1]
  elif n == 1: u = np.array([.5 * (a + b)])
  else: u = np.linspace(a, b, n)
  return r.inv(u)

# ---------------------------------------------------------------- laws
class Law:
  """ A probability law for one variable: logp(x) is the true log probability
  (density) the variable represents at x, whatever its probability scale. """
  kind = None
  def logp(self, x):
    return self._logp(x)

def _g(x, a, b):
  """ A positive, asymmetric shape. """
  return -abs(float(x) - a) / b - .05 * float(x)

def law(t, r, pscale, kinds=None, name='x'):
  """ Random law for a declaration: Law with prob, args, kwds for RV(...) or set_prob. """
  from pbmon import model
  w = Law()
  ps = gen.norm_scale(pscale)
  w.pscale, w.prob, w.args, w.kwds = ps, None, (), {}
  opts = ['default', 'scalar', 'func', 'lambda', 'partial', 'scipy', 'icon']
  if r.kind != 'float': opts += ['table', 'table', 'scalar']
  if kinds: opts = [k for k in opts if k in kinds]
  if len(set(opts)) > 1 and t.chance(.8): opts = [k for k in opts if k != 'icon']   # slow to compile
  w.kind = t.choice(opts)
  if w.kind == 'icon' and r.kind == 'bool': w.kind = 'func'
  off = model.offset(ps)
  raw = (lambda lp: lp) if model.islog(ps) else (lambda lp: math.exp(lp))   # stored number from stored log
  def spread(f):
    def each(x):
      x = np.asarray(x)
      out = np.array([raw(f(v)) for v in np.ravel(x)], dtype=float).reshape(x.shape)
      return out if out.ndim else float(out)
    return each
  if w.kind == 'default':
    w._logp = lambda x: -math.log(r.length) if r.inside(x) else -math.inf
  elif w.kind == 'scalar':
    p = t.choice([.3, .05, .9, 1., .2])
    if r.kind == 'bool' and len(r.vals) == 2:
      p = t.choice([.3, .05, .9, .2, .75])
      w._logp = lambda x: math.log(p if x else 1. - p)
    else:
      w._logp = lambda x: math.log(p) if r.inside(x) else -math.inf
    w.prob = model.stored(math.log(p), ps)
  elif w.kind == 'table':
    p = np.asarray(t.np.random(len(r.vals))) + .01
    if t.chance(.5): p = p / p.sum()
    if len(p) > 1 and t.chance(.3): p[t.int(0, len(p) - 1)] = 0.
    w.prob = np.array([model.stored(math.log(x) if x > 0 else -math.inf, ps) for x in p])
    tab = {v: (math.log(x) if x > 0 else -math.inf) for v, x in zip(r.vals, p)}
    w._logp = lambda x: tab.get(x, -math.inf)
  elif w.kind in ('func', 'lambda', 'partial'):
    a, b = t.int(-4, 4) * .5, t.choice([1., 2.5, 7.])
    w._logp = lambda x: _g(x, a, b) + off
    f = spread(lambda v: _g(v, a, b))
    if w.kind == 'func': w.prob = f
    elif w.kind == 'lambda': w.prob = lambda x: f(x)
    else:
      each = lambda x, a, b: spread(lambda v: _g(v, a, b))(x)
      def trailing(x, a, b): return each(x, a, b)
      def leading(a, b, x): return each(x, a, b)
      def middle(a, x, b): return each(x, a, b)
      how = t.int(0, 2)      # positional constants come first
      if how == 0: w.prob, w.args = leading, (a, b)
      elif how == 1: w.prob, w.kwds = trailing, {'b': b, 'a': a}
      else: w.prob, w.args, w.kwds = middle, (a,), {'b': b}
  elif w.kind == 'scipy':
    import scipy.stats as ss
    if r.kind == 'float':
      d, kw = t.choice([(ss.norm, {'loc': t.int(-3, 3) * 1., 'scale': t.choice([.5, 2., 8.])}),
                        (ss.laplace, {'loc': 1., 'scale': 3.}), (ss.logistic, {'scale': 2.}),
                        (ss.t, {'df': 4., 'loc': -1., 'scale': 2.})])
      w.kwds = dict(kw)
      w._logp = lambda x: float(d.logpdf(float(x), **kw)) + off
    else:
      d, kw = t.choice([(ss.binom, {'n': 6, 'p': .3}), (ss.poisson, {'mu': 2.5}), (ss.geom, {'p': .4})])
      w.kwds = dict(kw)
      w._logp = lambda x: float(d.logpmf(int(x), **kw)) + off
    w.dist, w.dkw = d, kw
    w.prob = d
  elif w.kind == 'icon':
    c = t.choice([.5, 1.5, -.25])
    w._logp = (lambda x: -c * float(x) - 1. + off) if model.islog(ps) else \
              (lambda x: math.log(1. + .01 * c * c + .001 * float(x)**2) + off)
    w.icon = (lambda s: -c * s - 1.) if model.islog(ps) else (lambda s: 1. + .01 * c * c + .001 * s**2)
  return w

def rv(t, name, r, w, pscale=None):
  """ The declared random variable with its law (and probability scale). """
  kw = {} if pscale is None else {'pscale': pscale}
  if w.kind == 'icon':
    v = build(t, name, r, cls=pb.RV)
    t.call('set_prob(icon)', v.set_prob, w.icon(v[:]), **kw)
  elif t.chance(.5) or r.trans:
    if w.kind == 'default' and t.chance(.7):
      v = build(t, name, r, cls=pb.RV, **kw)
    else:
      v = build(t, name, r, cls=pb.RV)
      t.call('set_prob({})'.format(w.kind), v.set_prob, w.prob, *w.args, **dict(w.kwds, **kw))
  else:
    if w.args:
      s, vt = vset(t, r)
      v = t.call('RV', pb.RV, name, s, vt, w.prob, *w.args, **dict(w.kwds, **kw))
    else:
      v = build(t, name, r, cls=pb.RV, prob=w.prob, **dict(w.kwds, **kw))
  t.note('law {} {} {} pscale={}'.format(w.kind, w.args, w.kwds, pscale))
  return v
