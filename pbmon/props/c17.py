""" C17: conditional sampling of correlated normals follows the exact conditional law. """
import math
import numpy as np
import scipy.stats
import probayes as pb
from probayes.cond_cov import CondCov
from pbmon import gen, model
from pbmon.core import Skip

RULE = ('a case declares means, a covariance matrix and limits, samples variables given the others (directly, by steps of a field, '
        'or through a sampler), and maps every sampled value to its exact conditional cumulative probability; cases count by '
        'dimension, limits, scale, number of variables per step, and kind of call')
ASSUMPTIONS = ['covariance matrices are positive definite and not nearly singular',
               'conditional laws are cut at the limits of the variable',
               'uniformity, independence, means and covariances are judged with a false-alarm probability below 1e-9 each']
P = 1e-9
Z = 6.5

def law(t, n):
  """ Means, covariance and precision of n variables. """
  mean = np.array([t.int(-4, 4) * .5 for _ in range(n)])
  if t.chance(.3): mean = np.round(mean).astype(int)      # declared as integers
  sd = np.array([t.choice([.3, 1., 2., 5.]) for _ in range(n)])
  for _ in range(100):
    a = np.asarray(t.np.normal(size=(n, n + t.int(0, 2)))) + t.choice([0., .8])
    c = a @ a.T; d = np.sqrt(np.diag(c)); c = c / np.outer(d, d)
    if np.linalg.eigvalsh(c)[0] > .02: break
  else: c = np.eye(n)
  cov = c * np.outer(sd, sd); cov = .5 * (cov + cov.T)
  if t.chance(.1):
    b = t.np.randint(-1, 2, size=(n, n)) if hasattr(t.np, 'randint') else t.np.integers(-1, 2, size=(n, n))
    cov = np.eye(n, dtype=int) + b @ b.T
  return mean, cov, np.linalg.inv(cov)

def given(i, x, mean, prec):
  """ Exact conditional mean and deviation of variable i. """
  off = sum(prec[i, j] * (x[j] - mean[j]) for j in range(len(x)) if j != i)
  return mean[i] - off / prec[i, i], 1. / math.sqrt(prec[i, i])

def cdf(v, m, s, lo, hi):
  """ Cumulative probability of a normal cut at limits. """
  a, b = (lo - m) / s, (hi - m) / s; z = (v - m) / s
  if a > 0.:     # the upper tail is more accurate
    sf = scipy.stats.norm.sf; return float((sf(a) - sf(z)) / (sf(a) - sf(b)))
  f = scipy.stats.norm.cdf; return float((f(z) - f(a)) / (f(b) - f(a)))

def limits(t, mean, cov):
  """ Wide, or cutting through the law. """
  kind = t.choice(['wide', 'wide', 'inf', 'tight', 'onesided'])
  sd = np.sqrt(np.diag(cov)); lims = []
  for m, s in zip(mean, sd):
    if kind == 'wide': lims.append((m - 40. * s, m + 40. * s))
    elif kind == 'inf': lims.append((-np.inf, np.inf))
    elif kind == 'tight':
      lo = m + s * t.rng.uniform(-2., .5); lims.append((lo, lo + s * t.rng.uniform(.5, 2.)))
    else: lims.append((-np.inf, m + s * t.rng.uniform(-.5, 1.)) if t.chance(.5) else (m - s * t.rng.uniform(-.5, 1.), np.inf))
  return kind, [(float(a), float(b)) for a, b in lims]

def judge(t, us, kind):
  us = np.asarray(us)
  t.check(bool(np.all((us >= -1e-9) & (us <= 1. + 1e-9))), kind + ':inside', 'cumulative probabilities from {} to {}'.format(us.min(), us.max()))
  if len(us) >= 8:
    pv = scipy.stats.kstest(np.clip(us, 0., 1.), 'uniform').pvalue
    t.check(pv > P, kind + ':law', 'conditional probabilities of {} samples: p={}'.format(len(us), pv))
  if len(us) >= 60:
    z = scipy.stats.norm.ppf(np.clip(us, 1e-12, 1. - 1e-12))
    r = float(np.sum(z[1:] * z[:-1]) / math.sqrt(len(z) - 1))
    t.check(abs(r) < 8., kind + ':independent', 'successive samples correlate: {}'.format(r))
    v = float((np.sum(z**2) - len(z)) / math.sqrt(2. * len(z)))
    t.check(-6. < v < 9., kind + ':variance', 'variance score {}'.format(v))

def interp(t):
  """ Direct conditional sampling. """
  n = t.int(1, 5) if not t.chance(.1) else t.int(6, 9)
  mean, cov, prec = law(t, n); kind, lims = limits(t, mean, cov)
  cc = t.call('CondCov', CondCov, mean if t.chance(.5) else list(mean), cov if t.chance(.5) else cov.tolist(), np.array(lims))
  us = []
  for _ in range(t.choice([1, 3, 10])):
    i = t.int(0, n - 1)
    x = [float(np.clip(m + s * t.rng.gauss(0., 1.5), *l)) for m, s, l in zip(mean, np.sqrt(np.diag(cov)), lims)]
    m, s = given(i, x, mean, prec)
    lo, hi = lims[i]
    if (lo - m) / s > 8. or (m - hi) / s > 8.: continue
    num = t.choice([0, 0, -1, -20, -200, 5, 2]) if np.isfinite(lo) and np.isfinite(hi) else t.choice([0, -1, -20, -200])
    args = list(x); args[i] = {num}
    pdf = t.chance(.5)
    out = t.call('interp', cc.interp, *args, **({'cond_pdf': True} if pdf else {}))
    if pdf:
      out, dens = out
      t.close(dens, scipy.stats.norm.pdf(out, m, s), 'density', rtol=1e-6)
    v = np.ravel(out)
    t.check(np.shape(out) == (() if num == 0 else (abs(num),)), 'number', '{} for {}'.format(np.shape(out), num))
    t.check(bool(np.all((v >= lo) & (v <= hi))), 'limits', '{} beyond {}'.format(v, lims[i]))
    c = np.array([cdf(z, m, s, lo, hi) for z in v])
    if num > 1 and kind != 'wide':
      t.check(bool(np.all(np.abs(c - np.linspace(0., 1., num)) < 1e-6)), 'grid', '{}'.format(c))
    elif num <= 0: us += list(c)
    if num < -100: judge(t, c, 'interp')
  if us: judge(t, us, 'interp')
  t.cover('interp', n, kind, len(us) > 100)

def build(t, n, mean, cov, lims, vals=True):
  names = t.shuffled(['a', 'b', 'c', 'd', 'e', 'ab', 'a1', 'x', 'B'])[:n]
  vs = []
  for k, (lo, hi) in zip(names, lims):
    vs.append(pb.RV(k, vtype=float, vset=[lo, hi] if np.isfinite(lo) and np.isfinite(hi) else
                    [-pb.OO if lo == -np.inf else (lo,), pb.OO if hi == np.inf else (hi,)]
                    if hasattr(pb, 'OO') else [(lo,), (hi,)]))
  return names, vs

def declare(t, func, mean, cov, **kw):
  how = t.choice(['args', 'kwds', 'mixed'])
  mv = scipy.stats.multivariate_normal
  m, c = (mean, cov) if t.chance(.5) else (mean.tolist(), cov.tolist())
  if how == 'args': t.call('declare', func, mv, m, c, **kw)
  elif how == 'kwds': t.call('declare', func, mv, **dict(t.shuffled([('mean', m), ('cov', c)])), **kw)
  else: t.call('declare', func, mv, m, cov=c, **kw)
  return how

class Watch:
  """ Follows conditional steps one variable after another. """
  def __init__(self, t, names, mean, prec, lims, per):
    self.t, self.names, self.mean, self.prec, self.lims, self.per = t, names, mean, prec, lims, per
    self.turn, self.us, self.each = 0, [], {k: 0 for k in names}
  def see(self, pred, succ):
    n = len(self.names); per = self.per or n
    groups = -(-n // per); g = self.turn % groups; self.turn += 1
    x = [pred[k] for k in self.names]
    for i, k in enumerate(self.names):
      if i // per != g:
        self.t.check(succ[k] == pred[k], 'others', '{} changed from {} to {} out of turn'.format(k, pred[k], succ[k])); continue
      m, s = given(i, x, self.mean, self.prec)
      lo, hi = self.lims[i]
      self.t.check(lo <= succ[k] <= hi, 'limits', '{} = {} beyond {}'.format(k, succ[k], (lo, hi)))
      self.t.check(succ[k] != pred[k], 'changed', k)
      self.us.append(cdf(succ[k], m, s, lo, hi)); self.each[k] += 1
      x[i] = succ[k]

def item(d, k): return float(np.ravel(d[k])[0])

def steps(t):
  """ Steps of a field. """
  n = t.int(2, 5)
  mean, cov, prec = law(t, n); kind, lims = limits(t, mean, cov)
  names, vs = build(t, n, mean, cov, lims)
  rf = t.call('RF', pb.RF, *vs)
  log = t.chance(.4)
  per = t.choice([None, 1, 1, 2, n])
  if t.chance(.5): declare(t, rf.set_prob, mean, cov, **({'pscale': 'log'} if log else {}))
  how = declare(t, rf.set_tran, mean, cov, **({'tsteps': per} if per else {}))
  w = Watch(t, names, mean, prec, lims, per)
  x = {k: float(np.clip(m, *l)) for k, m, l in zip(names, mean, lims)}
  for _ in range(t.choice([3, 40, 150])):
    p = t.call('step', rf.step, dict(t.shuffled(x.items())), *([{0}] if t.chance(.5) else []))
    pred, succ = {k: item(p, k) for k in names}, {k: item(p, k + "'") for k in names}
    t.check(pred == x, 'predecessor', '{} {}'.format(pred, x))
    t.check(set(p.marg) == {k + "'" for k in names} and set(p.cond) == set(names), 'name', p.name)
    w.see(pred, succ); x = succ
  judge(t, w.us, 'steps')
  t.cover('steps', n, kind, log, per, how)

def chains(t):
  """ Samplers whose chains reproduce the declared law. """
  n = t.int(2, 4)
  mean, cov, prec = law(t, n); kind, lims = 'wide', [(m - 40. * s, m + 40. * s) for m, s in zip(mean, np.sqrt(np.diag(cov)))]
  names, vs = build(t, n, mean, cov, lims)
  log = t.chance(.4)
  sp = t.call('SP', pb.SP, t.call('RF', pb.RF, *vs))
  how = declare(t, sp.set_prob, mean, cov, **({'pscale': 'log'} if log else {}))
  per = t.choice([None, 1, 1, 2])
  declare(t, sp.set_tran, mean, cov, **({'tsteps': per} if per else {}))
  t.call('set_scores', sp.set_scores, 'gibbs')
  N = t.choice([50, 300, 300])
  m = t.int(1, 2)      # samplers taken in turn
  start = [t.np.multivariate_normal(mean, cov) for _ in range(m)]
  ss = [t.call('sampler', sp.sampler, dict(zip(names, map(float, s))), stop=N) for s in start]
  ws = [Watch(t, names, mean, prec, lims, per) for _ in ss]
  x = [dict(zip(names, map(float, s))) for s in start]
  zs = [[] for _ in ss]; got = [[] for _ in ss]
  mv = scipy.stats.multivariate_normal(mean, cov)
  for _ in range(N):
    for i in t.shuffled(range(m)):
      z = t.call('sample', next, ss[i])
      pred, succ = {k: item(z.q, k) for k in names}, {k: item(z.q, k + "'") for k in names}
      t.check(pred == x[i], 'predecessor'); ws[i].see(pred, succ); x[i] = succ
      t.check({k: item(z.v, k) for k in names} == succ and bool(z.u), 'reported')
      t.check(model.near(model.true_logp(z.p.prob, z.p.pscale), float(mv.logpdf([succ[k] for k in names])), tol=1e-7, pscale=z.p.pscale), 'prob')
      zs[i].append([succ[k] for k in names]); got[i].append(z)
  # exact standard errors of the mean of a linear autoregression
  per_ = per or n; A = np.eye(n)
  for i in range(n):
    B = np.eye(n); B[i, :] = -prec[i, :] / prec[i, i]; B[i, i] = 0.; A = B @ A
  sweep = -(-n // per_)
  for i, (w, zz) in enumerate(zip(ws, zs)):
    judge(t, w.us, 'chains')
    zz = np.array(zz)[sweep - 1::sweep]     # whole sweeps
    I = np.eye(n); R = np.linalg.inv(I - A)
    V = R @ cov + cov @ R.T - cov
    se = np.sqrt(np.maximum(np.diag(V), 1e-12) / len(zz)); sd = np.sqrt(np.diag(cov))
    dev = np.abs(zz.mean(axis=0) - mean)
    t.check(bool(np.all(dev < 8. * se + 20. * sd / len(zz))), 'chains:mean', 'means {} for {}'.format(zz.mean(axis=0), mean))
    e = np.linalg.norm(np.linalg.matrix_power(A, 30), 2)
    if len(zz) >= 250 and e < .05:
      c = np.cov(zz.T); r = np.max(np.abs(c - cov) / np.outer(sd, sd))
      lam = max(abs(np.linalg.eigvals(A))); tau = (1. + lam**2) / max(1e-6, 1. - lam**2)
      t.check(r < 12. * math.sqrt(2. * tau / len(zz)), 'chains:covariance', '{} for {}'.format(c, cov))
    out = t.call('summary', sp, got[i])
    for k, col in zip(names, range(n)):
      t.check(np.array_equal(np.ravel(out.v[k]), np.array([g[col] for g in zs[i]])), 'summary')
  t.cover('chains', n, log, per, how, m, N)
  t.sample('{} variables, {} samples x {}: mean {} for {}'.format(n, N, m, np.round(np.mean(zs[0], axis=0), 2), mean))

def increments(t):
  """ Increments correlated by a covariance matrix or its triangular factor. """
  n = t.int(1, 4)
  mean, cov, prec = law(t, n)
  names, vs = build(t, n, mean, cov, [(-1e4, 1e4)] * n)
  rf = t.call('RF', pb.RF, *vs)
  L = np.linalg.cholesky(cov)
  if n == 1: raise Skip()
  how = t.choice(['cov', 'lower', 'upper'])
  if how == 'cov': t.call('set_tran', rf.set_tran, cov)
  else:
    if how == 'upper': L = L.T
    t.call('set_tfun', rf.set_tfun, L)
  kind = t.choice(['fixed', 'uniform', 'sphere', 'func', 'explicit'])
  d = {k: t.choice([.1, -.2, .5]) for k in names}
  r = t.choice([.05, .3])
  if kind == 'fixed': t.call('set_delta', rf.set_delta, d)
  elif kind == 'uniform': t.call('set_delta', rf.set_delta, [r])
  elif kind == 'sphere': t.call('set_delta', rf.set_delta, (r,))
  elif kind == 'func': t.call('set_delta', rf.set_delta, lambda: rf.Delta(**d))
  x = {k: t.int(-3, 3) * 1. for k in names}
  us = []
  for _ in range(t.choice([2, 60])):
    if kind == 'explicit': p = t.call('step', rf.step, dict(x), rf.Delta(**d))
    else: p = t.call('step', rf.step, dict(x))
    inc = np.array([item(p, k + "'") - item(p, k) for k in names])
    t.check({k: item(p, k) for k in names} == x, 'predecessor')
    raw = np.linalg.solve(L, inc)
    if kind in ('fixed', 'func', 'explicit'):
      t.close(raw, [d[k] for k in names], 'increment:fixed', rtol=1e-6, atol=1e-8)
    elif kind == 'sphere':
      t.close(float(np.sqrt(np.sum(raw**2))), r, 'increment:radius', rtol=1e-6, atol=1e-9); us += list((raw / r > 0.) * 1.)
    else:
      t.check(bool(np.all(np.abs(raw) <= r * (1. + 1e-6))), 'increment:uniform', '{} beyond {}'.format(raw, r)); us += list(.5 + .5 * raw / r)
    x = {k: item(p, k + "'") for k in names}
  if len(us) >= 60:
    if kind == 'uniform':
      pv = scipy.stats.kstest(us, 'uniform').pvalue; t.check(pv > P, 'increment:law', 'p={}'.format(pv))
    else: t.check(abs(sum(us) - .5 * len(us)) < Z * .5 * math.sqrt(len(us)), 'increment:sign')
  t.cover('increments', n, how, kind)

STAGES = {
  'interp':     (interp, 2500, 30000),
  'steps':      (steps, 500, 6000),
  'chains':     (chains, 120, 1500),
  'increments': (increments, 800, 8000),
}
