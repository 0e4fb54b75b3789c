""" C15: Markov chain Monte Carlo accepts by the exact ratio and stays on the accepted state. """
import math
import numpy as np
import scipy.stats
import probayes as pb
from pbmon import gen, model, zoo
from pbmon.core import Skip

RULE = ('a case declares a target (function, independent variables, or data with parameters), a proposal (increments, '
        'matrices, samplers, with one or two direction functions) and a sampler, runs chains, and follows every step online; '
        'cases count by target, proposal, scales, sampler, and the kinds of step seen')
ASSUMPTIONS = ['transition functions given as a pair are (successor given predecessor, predecessor given successor)',
               'the first sample has no predecessor to be compared with and is always accepted',
               'uniformity of thresholds and acceptance counts are judged with a false-alarm probability below 1e-9 each']
P = 1e-9
ZERO = -math.inf

def item(x): return x.item() if hasattr(x, 'item') else x

def ratio(lp, lq):
  if lp == ZERO: return 0.
  if lq == ZERO: return math.inf
  return math.exp(min(700., lp - lq))

def near_ratio(a, b): return abs(a - b) <= 1e-9 + 1e-6 * abs(b)

class Chain:
  """ Online monitor of one chain. """
  def __init__(self, t, names, start, target, fwd, rev, kind, data=None, exact_start=True):
    self.t, self.names, self.target, self.fwd, self.rev, self.kind = t, names, target, fwd, rev, kind
    self.state = {k: start[k] for k in names}; self.first = True
    self.data = data or {}
    self.n = self.accepted = 0; self.s, self.thr, self.seen = [], [], set()
    self.exact_start = exact_start
  undefined, nan = None, False
  def values(self, d, suffix=''):
    return {k: item(np.ravel(d[k + suffix])[0]) for k in self.names}
  def same(self, a, b, kind, what):
    for k in self.names:
      self.t.check(a[k] == b[k], kind, '{}: {} should be at {}'.format(what, a, b))
  def step(self, z):
    t, kind = self.t, self.kind
    self.n += 1
    # where the proposal starts, and where it goes
    pred, succ = self.values(z.q), self.values(z.q, "'")
    t.check(set(z.q.marg.keys()) == {k + "'" for k in self.names} and set(z.q.cond.keys()) == set(self.names), 'proposal:name', z.q.name)
    if not self.first or self.exact_start:
      self.same(pred, self.state, 'chain:state', 'step {} starts'.format(self.n))
    self.same(self.values(z.p), succ, 'chain:proposed', 'proposed probability')
    logp, logq = self.target(succ), (self.target(self.state) if not self.first else None)
    void = self.undefined is not None and self.undefined(succ)    # the target itself is not a number
    t.check(void or model.near(model.true_logp(z.p.prob, z.p.pscale), logp, tol=1e-8, pscale=z.p.pscale), 'target:prob',
            'at {}: log {} want {}'.format(succ, model.true_logp(z.p.prob, z.p.pscale), logp))
    f = self.fwd(succ, pred) if self.fwd else None
    r = None
    if f is not None:
      t.check(model.near(model.true_logp(z.q.prob, z.q.pscale), f, tol=1e-8, pscale=z.q.pscale), 'proposal:prob',
              '{} to {}: log {} want {}'.format(pred, succ, model.true_logp(z.q.prob, z.q.pscale), f))
    if self.rev is not None:
      r = self.rev(succ, pred)
      t.check(z.r is not None, 'reverse:missing')
      t.check(model.near(model.true_logp(z.r.prob, z.r.pscale), r, tol=1e-8, pscale=z.r.pscale), 'reverse:prob',
              '{} from {}: log {} want {}'.format(pred, succ, model.true_logp(z.r.prob, z.r.pscale), r))
      t.check(set(z.r.marg.keys()) == set(self.names) and set(z.r.cond.keys()) == {k + "'" for k in self.names}, 'reverse:name', z.r.name)
    elif z.r is not None and f is not None and kind == 'hastings':
      r = model.true_logp(z.r.prob, z.r.pscale)     # may be reported for symmetric proposals
      t.check(model.near(r, f, tol=1e-8), 'reverse:symmetric', '{} {}'.format(r, f))
    # the predecessor it is compared with
    if self.first:
      t.check(z.u is True or z.u == True, 'first:accepted', repr(z.u)); ok = True
    else:
      self.same(self.values(z.o), self.state, 'chain:predecessor', 'predecessor')
      t.check(self.nan or model.near(model.true_logp(z.o.prob, z.o.pscale), logq, tol=1e-8, pscale=z.o.pscale), 'predecessor:prob')
      if kind == 'gibbs':
        ok = True
      else:
        a, b = logp, logq
        if kind == 'hastings' and self.rev is not None: a, b = a + r, b + f
        if a == ZERO: want = 0.
        elif self.nan: want = 1.
        else: want = min(1., ratio(a, b))
        lin = not model.islog(z.p.pscale)
        if not (lin and max(a, b) < -600.):
          t.check(void or near_ratio(float(z.s), want), 'score', 'score {} want {} ({} to {})'.format(z.s, want, pred, succ))
        t.check(0. <= z.t <= 1., 'threshold:range', repr(z.t))
        ok = bool(z.s >= z.t)
        if logp == ZERO: t.check(not z.u, 'accept:impossible', 'accepted {} of zero probability'.format(succ)); self.seen.add('zero')
        if want >= 1. and not (lin and max(a, b) < -600.): t.check(bool(z.u), 'reject:uphill', 'rejected ratio {}'.format(ratio(a, b))); self.seen.add('up')
        elif 0. < want: self.seen.add('down')
        self.s.append(0. if void else float(z.s)); self.thr.append(float(z.t)); self.accepted += bool(z.u)
      t.check(bool(z.u) == ok, 'accept:threshold', 'score {} threshold {} update {}'.format(z.s, z.t, z.u))
      t.check(bool(z.u) or z.u is None or z.u is False, 'update:value', repr(z.u))
    # the state reported
    new = succ if ok else self.state
    self.same(self.values(z.v), new, 'chain:reported', 'reported state ({})'.format('accepted' if ok else 'rejected'))
    t.check((void and ok) or self.nan or model.near(model.true_logp(z.v.prob, z.v.pscale), self.target(new), tol=1e-8, pscale=z.v.pscale), 'reported:prob')
    self.seen.add('accept' if ok else 'reject')
    if not self.first or ok: self.state = new
    if ok: self.nan = void
    self.first = False
  def finish(self):
    if len(self.s) >= 20:
      pv = scipy.stats.kstest(self.thr, 'uniform').pvalue
      self.t.check(pv > P, 'threshold:law', 'thresholds p={}'.format(pv))
      s = np.minimum(1., np.array(self.s)); m, v = s.sum(), (s * (1. - s)).sum()
      if v > 5.:
        self.t.check(abs(self.accepted - m) < 7. * math.sqrt(v), 'accept:rate', '{} of {} accepted, expected {}'.format(self.accepted, len(s), m))
    return tuple(sorted(self.seen))

def function(t, names, pscale):
  """ A target function and its logarithm, with holes of zero probability. """
  ps = gen.norm_scale(pscale); off = model.offset(ps)
  w = {k: t.choice([.3, 1., 4.]) for k in names}; c = {k: t.int(-2, 2) * .5 for k in names}
  mix = t.choice([0., .3]) if len(names) > 1 else 0.
  hole = t.choice([None, None, .8, 1.5]); big = t.choice([0., 0., -300.]) if model.islog(ps) else 0.
  if model.islog(ps): big = t.choice([0., 0., -5000., 400.])
  def raw(v):
    lp = big - sum(w[k] * abs(v[k] - c[k]) for k in names)
    if mix: lp -= mix * abs(v[names[0]] - v[names[1]])
    if hole is not None and v[names[0]] > hole: return ZERO
    return lp
  def f(**k):
    lp = raw({n: float(np.ravel(k[n])[0]) for n in names})
    if model.islog(ps): return lp if lp != ZERO else t_zero
    return math.exp(lp)
  t_zero = t.choice([-np.inf, -1.7976931348623157e+308])
  return f, (lambda v: raw(v) + off), hole is not None, big

def proposals(t, names, two):
  """ (increment sampler, forward log density, reverse log density): Laplace steps with drift. """
  b = {k: t.choice([.3, .7, 1.5]) for k in names}; m = {k: t.choice([.0, .4, -.3]) if two else 0. for k in names}
  def draw(): return {k: m[k] + np.random.laplace(scale=b[k]) for k in names}
  def lf(s, p): return sum(-abs(s[k] - p[k] - m[k]) / b[k] - math.log(2. * b[k]) for k in names)
  def lr(s, p): return sum(-abs(p[k] - s[k] - m[k]) / b[k] - math.log(2. * b[k]) for k in names)
  return draw, lf, lr

def stored_law(l, names, ps):
  raw = lambda lp: lp if model.islog(ps) else math.exp(lp)
  return lambda **k: raw(l({n: float(np.ravel(k[n + "'"])[0]) for n in names}, {n: float(np.ravel(k[n])[0]) for n in names}))

def run(t, sampler, chain, n, sp):
  walk = t.chance(.3)
  it = t.call('walk', sp.walk, sampler) if walk else sampler
  got = 0
  while True:
    if walk:
      if got >= len(it): break
      z = it[got]
    else:
      z = t.call('sample', next, sampler, None)
      if z is None: break
    chain.step(z); got += 1
  t.check(got == n, 'number', '{} samples of {}'.format(got, n))
  return chain.finish()

def scorers(t, sp, kind, after):
  """ Declares the acceptance rule in one of its spellings. """
  how = t.choice(['scores', 'all', 'scores+update'])
  t.call('set_scores', sp.set_scores, kind)
  if how == 'all': t.call('set_thresh', sp.set_thresh, kind)
  if how != 'scores': t.call('set_update', sp.set_update, t.choice([kind, 'metropolis']) if kind == 'hastings' else kind)
  return how

def continuous(t):
  """ Random walks on a joint target function. """
  pscale = gen.scale(t); ps = gen.norm_scale(pscale); off = model.offset(ps)
  names = t.shuffled(['x', 'y', 'z', 'x1', 'xy'])[:t.int(1, 3)]
  f, logt, holes, big = function(t, names, pscale)
  two = t.chance(.6)
  draw, lf, lr = proposals(t, names, two)
  vs = [pb.RV(k, vtype=float, vset=(-50., 50.)) for k in names]
  rf = t.call('RF', pb.RF, *vs)
  sp = t.call('SP', pb.SP, rf)
  kind = 'hastings' if two or t.chance(.5) else 'metropolis'
  early = t.chance(.3)
  if early: how = scorers(t, sp, kind, False)
  kw = {} if pscale is None else {'pscale': pscale}
  t.call('set_prob', sp.set_prob, f, **kw)
  q, r = stored_law(lf, names, ps), stored_law(lr, names, ps)
  t.call('set_tran', sp.set_tran, (q, r) if two else q)
  move = t.choice(['delta', 'delta', 'tfun']) if len(names) > 1 else 'delta'
  if move == 'delta':
    t.call('set_delta', sp.set_delta, lambda: sp.Delta(**draw()))
  else:
    one = t.chance(.4)
    state = {}
    def tfun(**k):
      un = k.pop('unknown'); return k[un] + draw()[un]
    t.call('set_tfun', sp.set_tfun, tfun, **({'tsteps': 1} if one else {}))
    if one:     # only one variable moves at a time: the declared density is only used as a number
      move = 'tfun1'
  if not early: how = scorers(t, sp, kind, True)
  start = {k: float(t.int(-2, 1)) * .5 for k in names}
  n = t.choice([1, 2, 10, 60, 120])
  init = dict(t.shuffled(start.items()))
  if t.chance(.3): init = {v: start[v.name] for v in vs}
  s = t.call('sampler', sp.sampler, init, stop=n)
  c = Chain(t, names, start, logt, lambda s, p: lf(s, p) + off, (lambda s, p: lr(s, p) + off) if two else None, kind)
  seen = run(t, s, c, n, sp)
  t.cover('continuous', len(names), gen.skind(pscale), two, move, kind, how, early, holes, big, seen)
  t.sample('{} {} steps {}: {} accepted, end {}'.format(kind, n, pscale, c.accepted, c.state))

def discrete(t):
  """ Chains over a finite set, with transition matrices and tabulated targets. """
  pscale = gen.scale(t); ps = gen.norm_scale(pscale); off = model.offset(ps)
  r = zoo.ref(t, kind='int')
  if len(r.vals) < 2: raise Skip()
  n = len(r.vals)
  p = np.asarray(t.np.random(n)) + .02; p /= p.sum()
  if n > 2 and t.chance(.5): p[t.int(0, n - 1)] = 0.
  kw = {} if pscale is None else {'pscale': pscale}
  x = zoo.build(t, 'x', r, cls=pb.RV)
  tab = np.array([model.stored(math.log(z) if z > 0. else ZERO, ps) for z in p])
  t.call('set_prob', x.set_prob, tab, **kw)
  two = t.chance(.6)
  m = np.asarray(t.np.random((n, n))) + .05
  if not two: m = m + m.T
  for _ in range(200): m = m / m.sum(axis=0, keepdims=True); m = m if two else m / m.sum(axis=1, keepdims=True)
  if not two: m = .5 * (m + m.T)
  st = lambda a: np.array([[model.stored(math.log(z), ps) for z in row] for row in a])
  tran = (st(m), st(m.T)) if two else st(m)
  t.call('set_tran', x.set_tran, tran)
  sp = t.call('SP', pb.SP, x)
  kind = 'hastings' if two else t.choice(['metropolis', 'hastings'])
  how = scorers(t, sp, kind, True)
  pos = {v: i for i, v in enumerate(r.vals)}
  lm = lambda s, q: math.log(m[pos[int(s['x'])], pos[int(q['x'])]])
  start = {'x': r.pick(t)}
  k = t.choice([1, 5, 60, 150])
  s = t.call('sampler', sp.sampler, dict(start), stop=k)
  c = Chain(t, ['x'], start, lambda v: math.log(p[pos[int(v['x'])]]) if p[pos[int(v['x'])]] > 0. else ZERO, lm,
            (lambda s, q: lm(q, s)) if two else None, kind)
  seen = run(t, s, c, k, sp)
  t.cover('discrete', n, gen.skind(pscale), two, kind, how, seen)

def inference(t):
  """ Parameters given data: iid likelihoods, optional priors, proposals on the parameters alone. """
  log = t.chance(.7)
  n = t.int(1, 12)
  data = np.round(t.np.normal(1., 2., size=n), 3)
  kw = {'pscale': 'log'} if log else {}
  mu = pb.RV('mu', vtype=float, vset=[-20., 20.], **kw)
  sd = pb.RV('sd', vtype=float, vset=[(.05,), 30.], **kw)
  x = pb.RV('x', vtype=float, vset=(-np.inf, np.inf))
  paras, stats = t.call('RF', pb.RF, mu, sd), t.call('RF', pb.RF, x)
  sp = t.call('SP', pb.SP, stats, paras)
  dist = t.choice([scipy.stats.norm, scipy.stats.laplace, scipy.stats.logistic])
  names = ['mu', 'sd']
  if t.chance(.5): t.call('set_prob', sp.set_prob, dist.logpdf if log else dist.pdf, order={'x': 0, 'mu': 'loc', 'sd': 'scale'}, **kw)
  else:
    f = dist.logpdf if log else dist.pdf
    t.call('set_prob', sp.set_prob, lambda x, mu, sd: f(x, loc=mu, scale=sd), **kw)
  joint = t.chance(.6)
  two = t.chance(.5)
  draw, lf, lr = proposals(t, names, two)
  pl = 0j if log else 1.
  q, r = stored_law(lf, names, pl), stored_law(lr, names, pl)
  t.call('RF.set_tran', paras.set_tran, (q, r) if two else q)
  bounded = t.chance(.4)
  if bounded:
    t.call('RF.set_delta', paras.set_delta, t.choice([[.3], (.2,), [.1]]), scale=True, bound=True)
    lf, lr = lf, lr
  else: t.call('RF.set_delta', paras.set_delta, lambda: paras.Delta(**{k: v * .1 for k, v in draw().items()}))
  t.call('set_tran', sp.set_tran, paras)
  t.call('set_delta', sp.set_delta, paras)
  kind = 'hastings' if two else t.choice(['metropolis', 'hastings'])
  how = scorers(t, sp, kind, True)
  start = {'mu': float(t.int(-2, 3)), 'sd': float(t.choice([1., 2., 5.]))}
  k = t.choice([1, 10, 50])
  init = start if t.chance(.5) else {mu: start['mu'], sd: start['sd']}
  s = t.call('sampler', sp.sampler, dict(init), {(x if t.chance(.5) else 'x'): data}, stop=k, iid=True, **({'joint': True} if joint else {}))
  def logt(v):
    if v['sd'] <= 0.: return ZERO
    lp = float(np.sum(dist.logpdf(data, loc=v['mu'], scale=v['sd'])))
    if joint: lp += (-math.log(40.) if -20. <= v['mu'] <= 20. else ZERO) + (-math.log(29.95) if .05 < v['sd'] <= 30. else ZERO)
    return lp
  class C(Chain):
    def step(self, z):
      Chain.step(self, z)
      t.check(z.p['x'] == {n} if isinstance(z.p['x'], set) else np.size(z.p['x']) == n, 'data:size', repr(z.p['x']))
      if bounded: t.check(-20. <= z.p['mu'] <= 20. and .05 < z.p['sd'] <= 30., 'bounded', '{} {}'.format(z.p['mu'], z.p['sd']))
  C.undefined = staticmethod(lambda v: v['sd'] <= 0.)
  c = C(t, names, start, logt, lf, lr if two else None, kind)
  seen = run(t, s, c, k, sp)
  t.cover('inference', log, joint, two, bounded, kind, how, seen)

def gibbs(t):
  """ Gibbs sampling accepts every sample. """
  log = t.chance(.5)
  names = ['x', 'y', 'z'][:t.int(2, 3)]
  vs = [pb.RV(k, vtype=float, vset=(-50., 50.)) for k in names]
  sp = t.call('SP', pb.SP, pb.RF(*vs))
  a = t.choice([.3, .6])
  kw = {'pscale': 'log'} if log else {}
  raw = lambda v: -sum(v[k]**2 for k in names) + a * v[names[0]] * v[names[1]]
  f = lambda **k: raw(k) if log else math.exp(raw(k))
  t.call('set_prob', sp.set_prob, f, **kw)
  def tfun(**k):
    un = k.pop('unknown'); m = .5 * a * (k[names[1]] if un == names[0] else k[names[0]] if un == names[1] else 0.)
    return np.random.normal(m, math.sqrt(.5))
  t.call('set_tfun', sp.set_tfun, tfun, **({'tsteps': 1} if t.chance(.5) else {}))
  scorers(t, sp, 'gibbs', True)
  start = {k: 0. for k in names}
  k = t.int(1, 40)
  s = t.call('sampler', sp.sampler, dict(start), stop=k)
  c = Chain(t, names, start, raw, None, None, 'gibbs')
  run(t, s, c, k, sp)
  t.check(True, 'gibbs')
  t.cover('gibbs', log, len(names), k > 5)

STAGES = {
  'continuous': (continuous, 2400, 14400),
  'discrete':   (discrete, 1800, 10800),
  'inference':  (inference, 800, 4800),
  'gibbs':      (gibbs, 240, 1440),
}
