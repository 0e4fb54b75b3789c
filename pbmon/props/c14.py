""" C14: transitions follow the transition law declared for them. """
import collections, math
import numpy as np
import scipy.stats
import probayes as pb
from pbmon import gen, model, zoo
from pbmon.core import Skip

RULE = ('a case declares a transition (matrix, scalar or functions, possibly differing between directions) for a variable or '
        'field, steps it between given, default and sampled values, and compares every successor and conditional probability '
        'with the law; cases count by variable, kind of transition, scale, and kinds of predecessor and successor')
ASSUMPTIONS = ['transition numbers and functions are given on the scale of the variable; rows (first axis) are successors',
               'a field of several variables is stepped from one joint value at a time',
               'sampled frequencies are judged by tests with a false-alarm probability below 1e-9 each']
P = 1e-9
ZERO = -math.inf

def item(x): return x.item() if hasattr(x, 'item') else x

def judge(t, d, name, pred, succ, logp, pscale, kind, tol=1e-9):
  """ d is the conditional PD p(name'|name) over the values given (None: any). """
  t.check(isinstance(d, pb.PD), kind + ':type', repr(type(d)))
  model.layout_ok(t, d, kind)
  prime = name + "'"
  t.check(list(d.marg.keys()) == [prime] and list(d.cond.keys()) == [name], kind + ':name', d.name)
  ps = gen.norm_scale(pscale)
  t.check(isinstance(d.pscale, complex) == isinstance(ps, complex) and
          abs(model.offset(d.pscale) - model.offset(ps)) < 1e-9, kind + ':pscale',
          '{} vs {}'.format(d.pscale, ps))
  for key, want in ((name, pred), (prime, succ)):
    if want is None: continue
    t.check(np.array_equal(np.ravel(d[key]), np.ravel(want)), kind + ':values', '{}: {} vs {}'.format(key, d[key], want))
    t.check((d.dims[key] is None) == (np.ndim(want) == 0), kind + ':dims', '{}: {} for {}'.format(key, d.dims[key], want))
  cells = model.entries(d)
  for a, got in cells:
    want = logp(a[prime], a[name])
    t.check(model.near(got, want, tol=tol, pscale=d.pscale), kind + ':prob', "p({}'={}|{}={}): log {} want {}".format(
      name, a[prime], name, a[name], got, want))
  t.events['check:' + kind + ':cells'] += len(cells)
  return cells

def matrix(t, n):
  """ A stochastic matrix with zeros; columns are predecessors. """
  m = np.asarray(t.np.random((n, n))) ** t.choice([.3, 1., 4.]) + 1e-3
  for j in range(n):
    for i in range(n):
      if t.chance(.25) and np.count_nonzero(m[:, j]) > 1: m[i, j] = 0.
  if n > 1 and t.chance(.3): m[n - 1, t.int(0, n - 1)] = 0.
  for j in range(n):
    if not m[:, j].any(): m[t.int(0, n - 1), j] = 1.
  m /= m.sum(axis=0, keepdims=True)
  return m

def store(m, pscale):
  ps = gen.norm_scale(pscale)
  return np.array([[model.stored(math.log(x) if x > 0. else ZERO, ps) for x in row] for row in m])

def discrete(t, pscale):
  r = zoo.ref(t, kind=t.choice(['bool', 'int', 'int']))
  kw = {} if pscale is None else {'pscale': pscale}
  return r, zoo.build(t, 'x', r, cls=pb.RV, **kw)

def lookup(r, m):
  pos = {float(v): i for i, v in enumerate(r.vals)}
  def logp(s, p):
    x = m[pos[float(s)], pos[float(p)]]
    return math.log(x) if x > 0. else ZERO
  return logp

def some(t, r):
  """ Given values: a scalar or an array with possible repeats. """
  how = t.choice(['scalar', 'npscalar', 'array', 'array', 'one'])
  if how == 'scalar': return how, r.pick(t)
  if how == 'npscalar': return how, np.asarray(r.pick(t))[()]
  if how == 'one': return how, np.array([r.pick(t)])
  return how, np.array([r.pick(t) for _ in range(t.int(2, 5))])

def by_matrix(t):
  pscale = gen.scale(t)
  r, v = discrete(t, pscale)
  m = matrix(t, len(r.vals)); both = t.chance(.4)
  q = matrix(t, len(r.vals)) if both else m
  t.call('set_tran', v.set_tran, (store(m, pscale), store(q, pscale)) if both else store(m, pscale))
  unit = t.chance(.15)
  for _ in range(t.int(1, 3)):
    rev = both and t.chance(.4)
    logp = lookup(r, q if rev else m)
    kw = {'reverse': True} if rev else {}
    hp, p = t.choice([('default', None), ('random', {0})] + [some(t, r)] * 3)
    hs = t.choice(['same', 'given', 'given', 'zero', 'random', 'grid', 'cdf'])
    if hs in ('zero', 'random', 'grid', 'cdf') and (np.ndim(p) or p is None): hs = 'given'
    if hs in ('zero', 'random', 'grid', 'cdf') and rev: hs = 'given'
    s = {'same': None, 'zero': {0}, 'random': {-t.int(1, 9)}, 'grid': {t.int(1, 9)},
         'cdf': {t.choice([0., .5, .999, t.rng.random(), 1.])}}.get(hs)
    if hs == 'given': hs, s = some(t, r)
    step = v.step
    if unit and not np.ndim(p) and p is not None and hs in ('zero', 'random', 'grid'):
      f = t.call('RF', pb.RF, v)
      p = {'x': p} if t.chance(.5) else p
      step = f.step; hp = 'unit-' + hp
    args = (p, s) if t.chance(.7) else ((p, s),) if t.chance(.5) else [[p, s]]
    if s is None and t.chance(.5): args = () if p is None else (p,)
    d = t.call('step({},{})'.format(hp, hs), step, *args, **kw, _kind='step')
    if isinstance(p, dict): p = p['x']
    if p is None: p = np.array(r.vals)
    wp = None if isinstance(p, set) else p
    if s is None: ws = p if np.ndim(p) else None
    else: ws = None if isinstance(s, set) else s
    judge(t, d, 'x', wp, ws, logp, pscale, 'matrix')
    x, y = d['x'], d["x'"]
    for z in list(np.ravel(x)) + list(np.ravel(y)): t.check(r.inside(item(z)), 'matrix:inside', repr(z))
    if ws is None:       # sampled
      px = item(np.ravel(x)[0])
      for z in np.ravel(y):
        t.check(logp(item(z), px) != ZERO, 'matrix:possible', "x'={} sampled from x={} with zero probability".format(z, px))
      n = 1 if s is None or 0 in s or hs == 'cdf' else abs(list(s)[0])
      t.check(np.size(y) == n and (s is None or 0 not in s or hs == 'cdf' or np.ndim(y) == 0), 'matrix:number', '{} for {}'.format(y, s))
      if hs in ('grid', 'cdf'):
        c = list(s)[0]
        us = [c] if hs == 'cdf' else [.5] if c == 1 else np.linspace(0., 1., c)
        cum = np.cumsum([math.exp(logp(z, px)) for z in r.vals])
        for u, z in zip(us, np.ravel(y)):      # the smallest value whose cumulative probability exceeds u
          i = r.vals.index(item(z))
          t.check((i == 0 or cum[i - 1] <= u + 1e-9) and (cum[i] >= u - 1e-9), 'matrix:quantile', '{} at {} of {}'.format(z, u, cum))
    t.cover('matrix', r.sig(), gen.skind(pscale), both, rev, hp, hs)
  t.sample('{} {} -> {}'.format(r, np.round(m, 3).tolist(), d))

def frequencies(t):
  """ Sampled successors occur as declared: in batches, and along chains. """
  pscale = gen.scale(t)
  r, v = discrete(t, pscale)
  if len(r.vals) < 2: raise Skip()
  m = matrix(t, len(r.vals))
  t.call('set_tran', v.set_tran, store(m, pscale))
  logp = lookup(r, m)
  count = collections.defaultdict(collections.Counter)
  if t.chance(.5):
    p = r.pick(t)
    for z in np.ravel(t.call('step({-n})', v.step, p, {-400})["x'"]): count[p][item(z)] += 1
    how = 'batch'
  else:
    p = r.pick(t); how = 'chain'
    for _ in range(300):
      d = t.call('step', v.step, p, {0}) if t.chance(.5) else t.call('step', v.step, p)
      t.check(item(d['x']) == p, 'chain:predecessor')
      z = item(d["x'"]); count[p][z] += 1; p = z
  for p, c in count.items():
    n = sum(c.values())
    for z in r.vals:
      prob = math.exp(logp(z, p))
      pv = scipy.stats.binomtest(c[z], n, min(1., prob)).pvalue
      t.check(pv > P, how + ':frequency', "{} of {} from {} to {} at p={}".format(c[z], n, p, z, prob))
  t.cover(how, r.sig(), gen.skind(pscale))

def by_scalar(t):
  """ A constant conditional probability inside the set, for both values. """
  pscale = gen.scale(t)
  r = zoo.ref(t)
  kw = {} if pscale is None else {'pscale': pscale}
  v = zoo.build(t, 'x', r, cls=pb.RV, **kw)
  c = t.choice([.25, .5, 1., .01])
  t.call('set_tran', v.set_tran, model.stored(math.log(c), gen.norm_scale(pscale)))
  if t.chance(.3): t.call('set_prob', v.set_prob)     # defaulting probabilities leaves the transition alone
  logp = lambda s, p: math.log(c) if r.inside(s) and r.inside(p) else ZERO
  def val():
    how = t.choice(['scalar', 'array'])
    f = lambda: (lambda z: r.pick(t) if z is None else z)(r.pick(t, t.chance(.8)))
    return how, f() if how == 'scalar' else np.array([f() for _ in range(t.int(1, 5))])
  for _ in range(t.int(1, 3)):
    hp, p = t.choice([('zero', {0}), val(), val()])
    hs, s = t.choice([val(), val(), ('zero', {0}), ('random', {-t.int(1, 5)}), ('grid', {t.int(1, 5)}), ('cdf', {t.rng.random()}), ('default', None)])
    if hs == 'cdf' and r.kind != 'float': hs, s = val()
    d = t.call('step({},{})'.format(hp, hs), v.step, p, s, _kind='step')
    wp = None if isinstance(p, set) else p
    ws = None if isinstance(s, set) else s if s is not None else (p if np.ndim(p) else None)
    judge(t, d, 'x', wp, ws, logp, pscale, 'scalar')
    y = d["x'"]
    if hs in ('zero', 'random', 'grid'):
      n = abs(list(s)[0])
      t.check(np.shape(np.ravel(y)) == (max(1, n),) and (n > 0 or np.ndim(y) == 0), 'scalar:number', '{} for {}'.format(y, s))
    if ws is None:
      for z in np.ravel(y): t.check(r.inside(item(z)) or hs == 'cdf', 'scalar:inside', '{} in {}'.format(z, r))
    if hs == 'cdf':
      u = list(s)[0]; a, b = sorted([r.fwd(r.lo), r.fwd(r.hi)])
      t.close(r.fwd(y), a + u * (b - a), 'scalar:cdf', rtol=1e-7, atol=1e-9)
    t.cover('scalar', r.sig(), gen.skind(pscale), hp, hs)

def shape(a, b):
  """ A conditional density p(s|p), unequal in its directions. """
  return lambda s, p: scipy.stats.logistic.logpdf(s, loc=a * p + .2, scale=b)

def functions(t, pscale, swap=False):
  """ (callables, keywords, logp(s, p) of each direction). """
  ps = gen.norm_scale(pscale); off = model.offset(ps)
  a, b = t.choice([.5, -.7, 1., 0.25]), t.choice([.5, 1., 3.])
  dens = [shape(a, b), shape(-.5 * a, 2. * b)]
  num = [(lambda s, p, f=f: f(s, p)) if model.islog(ps) else (lambda s, p, f=f: np.exp(f(s, p))) for f in dens]
  how = t.choice(['order', 'order-swapped', 'index', 'keywords', 'index-swapped'])
  def wrap(g):
    if how == 'order':
      return lambda succ, pred: g(succ, pred)
    if how == 'order-swapped':
      return lambda pred, succ: g(succ, pred)
    if how == 'index': return lambda u, w: g(u, w)
    if how == 'index-swapped': return lambda u, w: g(w, u)
    return lambda **k: g(k["x'"], k['x'])
  kw = {'order': {'x': 'pred', "x'": 'succ'}, 'order-swapped': {"x'": 'succ', 'x': 'pred'},
        'index': {'x': 1, "x'": 0}, 'index-swapped': {"x'": 1, 'x': 0}}.get(how)
  kw = {} if kw is None else {'order': kw}
  both = t.chance(.4)
  fs = [wrap(g) for g in num]
  logs = [lambda s, p, f=f: float(f(s, p)) + off for f in dens]
  tran = tuple(fs) if both else fs[0]
  return how, tran, kw, logs if both else [logs[0], logs[0]], (a, b)

def by_function(t):
  pscale = gen.scale(t)
  kw = {} if pscale is None else {'pscale': pscale}
  r = zoo.ref(t, kind=t.choice(['float', 'float', 'int']), trans=False, finite=t.chance(.6))
  v = zoo.build(t, 'x', r, cls=pb.RV, **kw)
  how, tran, okw, logs, (a, b) = functions(t, pscale)
  t.call('set_tran', v.set_tran, tran, **okw)
  sampled = r.kind == 'float' and t.chance(.6)
  if sampled:
    cdf = lambda succ, pred: scipy.stats.logistic.cdf(succ, loc=a * pred + .2, scale=b)
    ppf = lambda succ, pred: scipy.stats.logistic.ppf(succ, loc=a * pred + .2, scale=b)
    t.call('set_tfun', v.set_tfun, (cdf, ppf), order={'x': 'pred', "x'": 'succ'})
  for _ in range(t.int(1, 3)):
    hp, p = t.choice([some(t, r)] * 3 + ([('grid', {t.int(1, 5)})] if r.kind != 'float' or r.finite else []))
    rev = isinstance(tran, tuple) and t.chance(.5)
    if sampled and t.chance(.7):
      while np.ndim(p) or isinstance(p, set): hp, p = some(t, r)
      lo, hi = cdf(r.lo, p), cdf(r.hi, p)
      if hi - lo < 1e-4 or (lo != 0. and lo < 1e-9) or (hi != 1. and 1. - hi < 1e-9): continue
      hs, s = t.choice([('zero', {0}), ('random', {-t.int(1, 9)}), ('grid', {t.int(1, 9)}), ('cdf', {.02 + .96 * t.rng.random()}), ('default', None), ('law', {-600})])
      if hs == 'law' and t.chance(.7): hs, s = 'zero', {0}
      d = t.call('step({},{})'.format(hp, hs), v.step, p, s, reverse=rev, _kind='step')
      judge(t, d, 'x', p, None, logs[rev], pscale, 'function', tol=1e-8)
      y = np.ravel(d["x'"]); u = cdf(y, p)
      if hs == 'grid':
        g = zoo.Ref(); g.kind = 'float'; g.lo, g.hi, g.open = lo, hi, r.open
        t.close(u, zoo.grid(g, list(s)[0]), 'function:quantiles', rtol=1e-6, atol=1e-9)
      elif hs == 'cdf': t.close(u, list(s)[0], 'function:cdf', rtol=1e-6)
      else:
        t.check(np.all((y >= r.lo - 1e-9) & (y <= r.hi + 1e-9)), 'function:inside', repr(y))
        n = {'zero': 1, 'default': 1}.get(hs) or -list(s)[0]
        t.check(len(y) == n, 'function:number', '{} for {}'.format(len(y), s))
        if hs == 'law':
          pv = scipy.stats.kstest((u - lo) / (hi - lo), 'uniform').pvalue
          t.check(pv > P, 'function:law', 'p={}'.format(pv))
    else:
      hs, s = some(t, r)
      d = t.call('step({},{})'.format(hp, hs), v.step, p, s, reverse=rev, _kind='step')
      judge(t, d, 'x', None if isinstance(p, set) else p, s, logs[rev], pscale, 'function', tol=1e-8)
    t.cover('function', r.sig(), gen.skind(pscale), how, isinstance(tran, tuple), rev, hp, hs)

def increments(t):
  """ A fixed increment determines the successor; the transition its probability. """
  pscale = gen.scale(t)
  kw = {} if pscale is None else {'pscale': pscale}
  r = zoo.ref(t, kind='float', trans=False)
  v = zoo.build(t, 'x', r, cls=pb.RV, **kw)
  how, tran, okw, logs, _ = functions(t, pscale)
  t.call('set_tran', v.set_tran, tran, **okw)
  dx = t.choice([.25, -.5, 1.])
  t.call('set_delta', v.set_delta, dx, bound=False)
  hp, p = some(t, r)
  d = t.call('step', v.step, p)
  judge(t, d, 'x', p, None, logs[0], pscale, 'increment', tol=1e-8)
  t.close(np.ravel(d["x'"]), np.ravel(p) + dx, 'increment:successor')
  t.cover('increment', gen.skind(pscale), how, hp)

def evolve(t):
  """ Repeated stepping of a distribution is repeated matrix multiplication. """
  pscale = gen.scale(t)
  r, v = discrete(t, pscale)
  n = len(r.vals)
  if t.chance(.6):
    m = matrix(t, n); t.call('set_tran', v.set_tran, store(m, pscale)); how = 'matrix'
  else:
    how = 'function'
    f, tran, okw, logs, _ = functions(t, pscale)
    t.call('set_tran', v.set_tran, tran, **okw)
    m = np.array([[math.exp(logs[0](float(s), float(p))) for p in r.vals] for s in r.vals])
  if r.kind == 'bool' and how == 'function': raise Skip()
  cond = t.call('step', v.step, *([] if t.chance(.5) or how == 'function' and False else [np.array(r.vals)]))
  k = t.int(1, 5)
  if t.chance(.5):                       # distribution of the state
    p = np.asarray(t.np.random(n)) + .05; p /= p.sum()
    qs = t.choice([gen.scale(t), pscale]); qq = gen.norm_scale(qs)
    last = t.call('PD', pb.PD, 'x_0', {'x_0': np.array(r.vals)}, prob=np.array([model.stored(math.log(z), qq) for z in p]), pscale=qs)
    want = {(s,): z for s, z in zip(r.vals, p)}
    for i in range(k):
      step = t.call('rekey', cond.rekey, {'x': 'x_%d' % i, "x'": 'x_%d' % (i + 1)})
      last = t.call('multiply', lambda: step * last if t.chance(.5) else last * step)
      last = t.call('marginalise', last.marginalise, 'x_%d' % i)
      p = m @ p
    marg, conds = ['x_%d' % k], []
    cells = {frozenset({'x_%d' % k: float(s)}.items()): math.log(z) if z > 0 else ZERO for s, z in zip(r.vals, p)}
  else:                                  # k-step transition
    for i in range(k):
      step = t.call('rekey', cond.rekey, {'x': 'x_%d' % i, "x'": 'x_%d' % (i + 1)})
      if not i: last = step; continue
      last = t.call('multiply', lambda: step * last if t.chance(.5) else last * step)
      last = t.call('marginalise', last.marginalise, 'x_%d' % i)
    mk = np.linalg.matrix_power(m, k)
    marg, conds = ['x_%d' % k], ['x_0']
    cells = {frozenset({'x_%d' % k: float(s), 'x_0': float(p)}.items()): math.log(mk[i, j]) if mk[i, j] > 0 else ZERO
             for i, s in enumerate(r.vals) for j, p in enumerate(r.vals)}
  model.agree(t, last, model.Table(marg, conds, cells), 'evolve', tol=1e-8)
  t.cover('evolve', how, r.sig(), gen.skind(pscale), k, bool(conds))

def fields(t):
  """ Fields step by their own transition functions, from one joint value. """
  pscale = gen.scale(t); ps = gen.norm_scale(pscale); off = model.offset(ps)
  names = t.shuffled(['x', 'y', 'z', 'a', 'x1', 'xy'])[:t.int(2, 3)]
  rs = {k: zoo.ref(t, kind=t.choice(['float', 'float', 'int']), trans=False) for k in names}
  f = t.call('RF', pb.RF, *[zoo.build(t, k, rs[k], cls=pb.RV) for k in names])
  if pscale is not None: t.call('set_prob', f.set_prob, pscale=pscale)
  w = {k: t.choice([.1, .4, 1.3]) for k in names}
  def law(sign):
    def g(**k):
      lp = -sum(w[n] * abs(k[n + "'"] - sign * k[n]) + .01 * w[n] * k[n] for n in names)
      return lp if model.islog(ps) else np.exp(lp)
    return g
  two = t.chance(.4)
  t.call('RF.set_tran', f.set_tran, (law(1.), law(-.5)) if two else law(1.))
  samp = t.chance(.5)
  if samp:
    asked = []
    def tfun(**k):
      un = k.pop('unknown'); asked.append(un)
      return float(sum((i + 1) * k[n] for i, n in enumerate(names)) * .1 + len(un) + .01 * ord(un[0]))
    steps = t.choice([None, 1, 2])
    t.call('RF.set_tfun', f.set_tfun, tfun, **({'tsteps': steps} if steps else {}))
  pos = 0
  for _ in range(t.int(1, 4)):
    pred = {k: rs[k].pick(t) for k in t.shuffled(names)}
    rev = two and t.chance(.5)
    if samp and t.chance(.7):
      how = 'sampled'
      d = t.call('RF.step', f.step, pred, *([{0}] if t.chance(.5) else []), **({'reverse': True} if rev and False else {}))
      rev = False
      succ = dict(pred); n = len(names); ks = names if not steps else names[pos:pos + steps]
      for k in ks:
        succ[k] = float(sum((i + 1) * succ[z] for i, z in enumerate(names)) * .1 + len(k) + .01 * ord(k[0]))
      if steps:
        pos += steps
        if pos >= n: pos = 0
    else:
      succ = {k: rs[k].pick(t) for k in t.shuffled(names)}
      primed = t.chance(.3); how = 'given'
      d = t.call('RF.step', f.step, pred, {k + "'" if primed else k: x for k, x in succ.items()}, reverse=rev)
    model.layout_ok(t, d, 'field')
    t.check(set(d.marg.keys()) == {k + "'" for k in names} and set(d.cond.keys()) == set(names), 'field:name', d.name)
    for k in names:
      t.close(d[k], pred[k], 'field:predecessor', k); t.close(d[k + "'"], succ[k], 'field:successor', '{} from {}'.format(k, pred))
    s = -.5 if rev else 1.
    want = -sum(w[n] * abs(succ[n] - s * pred[n]) + .01 * w[n] * pred[n] for n in names) + off
    t.check(model.near(model.true_logp(d.prob, d.pscale), want, pscale=d.pscale), 'field:prob', '{} want {}'.format(model.true_logp(d.prob, d.pscale), want))
    t.cover('field', len(names), gen.skind(pscale), two, rev, how, samp and steps)

def refuse(t):
  how = t.choice(['none', 'many', 'wrong', 'tuple'])
  v = pb.RV('x', vset=[1, 2, 4])
  if how == 'none': t.rejects('step without transition', v.step, 1, _kind=how)
  elif how == 'many':
    v.set_tran(np.eye(3)); t.rejects('sampling from several predecessors', v.step, np.array([1, 2]), {0}, _kind=how)
  elif how == 'wrong':
    v.set_tran(np.eye(3)); t.rejects('value outside the set', v.step, 3, 1, _kind=how)
  else: t.rejects('single function for sampling', v.set_tfun, np.exp, _kind=how)
  t.cover('refuse', how)

STAGES = {
  'matrix':     (by_matrix, 9000, 54000),
  'frequency':  (frequencies, 480, 2880),
  'scalar':     (by_scalar, 6000, 36000),
  'function':   (by_function, 6000, 36000),
  'increment':  (increments, 1800, 10800),
  'evolve':     (evolve, 3600, 21600),
  'field':      (fields, 3000, 18000),
  'refuse':     (refuse, 90, 540),
}
