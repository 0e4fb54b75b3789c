""" C16: samplers yield exactly the samples asked for, independently of one another. """
import collections, math
import numpy as np
import scipy.stats, scipy.special
import probayes as pb
from pbmon import gen, model
from pbmon.core import Skip

RULE = ('a case declares a process, opens several samplers and runs a random schedule over them (single samples, walks, '
        'resets, summaries, other calls of the same process), following each sampler separately; cases count by process, '
        'acceptance rule, number of samplers, and the kinds of action in the schedule')
ASSUMPTIONS = ['a rejected sample is marked by None (the state is repeated) or False (it is left out of summaries)',
               'resetting is only applied to one given sampler']

def item(x): return x.item() if hasattr(x, 'item') and np.size(x) == 1 else x
def one(x): return item(np.ravel(x)[0])

class Process:
  """ sp, names of the moving variables, init(t) -> dict, move(state, turn) -> state or None if random, data, target """
  plain = prop = False
  data, data_names, ckw, groups, target, pscale, qlog = None, (), {}, 1, None, 1., 0.

def delta_step(d): return lambda s, turn: {k: s[k] + d[k] for k in s}

def fields(t, p, n=None):
  names = t.shuffled(['x', 'y', 'z', 'x1', 'xy'])[:n or t.int(1, 3)]
  p.names = names
  log = t.chance(.4); p.pscale = 0j if log else 1.
  c = {k: t.choice([.1, .3]) for k in names}
  raw = lambda v: -sum(c[k] * abs(v[k]) for k in names) - 1.
  p.target = raw
  p.init = lambda t: {k: t.int(-8, 8) * .5 for k in names}
  kw = {'pscale': 'log'} if log else {}
  f = lambda **k: (lambda lp: lp if log else np.exp(lp))(-sum(c[n] * np.abs(k[n]) for n in names) - 1.)
  vs = [pb.RV(k, vtype=float, vset=(-1e4, 1e4)) for k in names]
  return names, vs, f, kw

def p_delta(t):
  p = Process(); names, vs, f, kw = fields(t, p)
  p.sp = t.call('SP', pb.SP, t.call('RF', pb.RF, *vs))
  t.call('set_prob', p.sp.set_prob, f, **kw)
  two = t.chance(.4)
  one_ = lambda **k: 0. if kw else 1.
  t.call('set_tran', p.sp.set_tran, (one_, one_) if two else one_)
  d = {k: t.choice([.5, -.25, 1.]) for k in names}
  if t.chance(.5): t.call('set_delta', p.sp.set_delta, d)
  else: t.call('set_delta', p.sp.set_delta, lambda: p.sp.Delta(**d))
  p.move = delta_step(d)
  return p

def p_turns(t):
  """ Variables are modified a few at a time, in turn. """
  p = Process(); names, vs, f, kw = fields(t, p, t.int(2, 3))
  p.sp = t.call('SP', pb.SP, t.call('RF', pb.RF, *vs))
  t.call('set_prob', p.sp.set_prob, f, **kw)
  d = {k: t.choice([.5, -.25, 1.]) for k in names}
  def tfun(**k):
    un = k.pop('unknown'); return k[un] + d[un]
  step = t.choice([None, 1, 1, 1, 2, 3])
  t.call('set_tfun', p.sp.set_tfun, tfun, **({'tsteps': step} if step else {}))
  n = len(names); step = min(step or n, n); p.groups = -(-n // step)
  def move(s, turn):
    g = turn % p.groups
    return {k: s[k] + (d[k] if names.index(k) // step == g else 0.) for k in s}
  p.move = move
  return p

def p_matrix(t):
  """ A permutation of a finite set. """
  p = Process(); n = t.int(2, 6)
  vals = sorted(t.rng.sample(range(-5, 15), n)); perm = t.shuffled(range(n))
  m = np.zeros((n, n)); m[perm, range(n)] = 1.
  x = pb.RV('x', vals)
  t.call('RV.set_tran', x.set_tran, m if t.chance(.6) else (m, m.T))
  w = np.asarray(t.np.random(n)) + .1
  p.names = ['x']
  if t.chance(.5):
    t.call('RV.set_prob', x.set_prob, w); p.target = lambda v: math.log(w[vals.index(int(v['x']))])
  else: p.target = lambda v: -math.log(n)
  p.sp = t.call('SP', pb.SP, x)
  p.init = lambda t: {'x': t.choice(vals)}
  p.move = lambda s, turn: {'x': vals[perm[vals.index(int(s['x']))]]}
  return p

def p_plain(t):
  """ No proposals: independent calls. """
  p = Process(); p.plain = True
  names, vs, f, kw = fields(t, p)
  p.sp = t.call('SP', pb.SP, t.call('RF', pb.RF, *vs))
  t.call('set_prob', p.sp.set_prob, f, **kw)
  fixed = p.init(t); fixed = {k: fixed[k] for k in names if t.chance(.4)}
  p.init = lambda t: {k: fixed.get(k, {0}) for k in names}
  p.fixed = fixed
  p.move = None
  return p

def p_prop(t):
  """ Propositions, moved by increments or sampled afresh. """
  p = Process(); p.prop = True
  names, vs, f, kw = fields(t, p)
  p.sp = t.call('SP', pb.SP, t.call('RF', pb.RF, *vs))
  t.call('set_prob', p.sp.set_prob, f, **kw)
  t.call('set_prop', p.sp.set_prop, lambda **k: -2. if kw else .25)
  p.qlog = -2. if kw else math.log(.25)
  p.move = None
  if t.chance(.6):
    d = {k: t.choice([.5, -.25, 1.]) for k in names}
    if t.chance(.5): t.call('set_delta', p.sp.set_delta, d)
    else: t.call('set_delta', p.sp.set_delta, lambda: p.sp.Delta(**d))
    p.move = delta_step(d)
  return p

def p_data(t, shared=None):
  """ Parameters move, data stays. """
  p = Process()
  p.names = ['mu', 'nu']; p.pscale = 0j
  if shared is None:
    mu = pb.RV('mu', vtype=float, vset=(-1e3, 1e3), pscale='log'); nu = pb.RV('nu', vtype=float, vset=(-1e3, 1e3), pscale='log')
    x = pb.RV('x', vtype=float, vset=(-np.inf, np.inf))
    paras, stats = t.call('RF', pb.RF, mu, nu), t.call('RF', pb.RF, x)
    turns = t.chance(.5)
    d = {'mu': t.choice([.5, -.25]), 'nu': t.choice([1., -.5])}
    if turns:
      def tfun(**k):
        un = k.pop('unknown'); return k[un] + d[un]
      t.call('RF.set_tfun', paras.set_tfun, tfun, tsteps=1)
    else:
      t.call('RF.set_tran', paras.set_tran, lambda **k: 0.)
      t.call('RF.set_delta', paras.set_delta, d)
    shared = (x, paras, stats, turns, d)
  x, paras, stats, turns, d = shared
  p.shared = shared
  p.sp = t.call('SP', pb.SP, stats, paras)
  t.call('set_prob', p.sp.set_prob, lambda x, mu, nu: scipy.stats.norm.logpdf(x, loc=mu + nu), pscale='log')
  if turns: t.call('set_tfun', p.sp.set_tfun, paras)
  else:
    t.call('set_tran', p.sp.set_tran, paras); t.call('set_delta', p.sp.set_delta, paras)
  data = np.round(t.np.normal(size=t.int(2, 6)), 3)
  p.data, p.data_names, p.ckw = {'x': data}, ('x',), {'iid': True, 'joint': t.chance(.5)}
  joint = p.ckw['joint']
  p.target = lambda v: float(scipy.stats.norm.logpdf(data, loc=v['mu'] + v['nu']).sum()) - (2. * math.log(2e3) if joint else 0.)
  p.init = lambda t: {'mu': t.int(-4, 4) * .5, 'nu': t.int(-4, 4) * .5}
  if turns:
    p.groups = 2
    p.move = lambda s, turn: {k: s[k] + (d[k] if ['mu', 'nu'].index(k) == turn % 2 else 0.) for k in s}
  else: p.move = delta_step(d)
  return p

KINDS = {'delta': p_delta, 'turns': p_turns, 'matrix': p_matrix, 'plain': p_plain, 'prop': p_prop, 'data': p_data}

def rule(t, p, kind):
  """ Declares the acceptance rule: tag and the number of scripted decisions so far. """
  p.script, p.asked = None, 0
  if p.plain: p.rule = 'none'; return
  p.rule = t.choice(['none', 'scripted', 'scripted'] + ([] if p.prop else ['metropolis', 'hastings', 'gibbs']))
  if p.rule == 'scripted':
    p.script = []
    def update(stu):
      p.script.append(t.choice([True, True, None, False]))
      return p.script[-1]
    t.call('set_scores', p.sp.set_scores, lambda opqr: float(opqr.p.prob))
    t.call('set_thresh', p.sp.set_thresh, np.random.uniform, low=2., high=3.)
    t.call('set_update', p.sp.set_update, update)
  elif p.rule != 'none':
    t.call('set_scores', p.sp.set_scores, p.rule)

class Tracked:
  """ Online monitor of one sampler. """
  def __init__(self, t, p, i):
    self.t, self.p, self.i = t, p, i
    self.stop = t.choice([None, 0, 1, 2, 5, 12, 20] * 4 + [130])
    self.start = p.init(t)
    self.given = {k: (set(v) if isinstance(v, set) else v) for k, v in self.start.items()}
    how = 'dict'
    if (p.plain or p.prop) and p.data is None and t.chance(.4) and (p.prop or not p.fixed):
      how = t.choice(['int', 'none', 'set'])
      self.start = None
      if how == 'int':
        if self.stop is None: self.stop = 5
        self.gen = t.call('sampler', p.sp.sampler, self.stop)
      elif how == 'none': self.stop = None; self.gen = t.call('sampler', p.sp.sampler)
      else: self.gen = t.call('sampler', p.sp.sampler, {0}, stop=self.stop)
    else:
      args = (dict(t.shuffled(self.start.items())),)
      self.args = args
      if p.data is not None: args += (p.data,)
      self.gen = t.call('sampler', p.sp.sampler, *args, **dict(p.ckw, **({} if self.stop is None and t.chance(.5) else {'stop': self.stop})))
    self.how = how
    self.pulled = self.turn = 0; self.state = self.start; self.first = True; self.done = False
    self.last = None
    self.got = []
  def left(self): return math.inf if self.stop is None else self.stop - self.pulled
  def values(self, d, suffix=''): return {k: one(d[k + suffix]) for k in self.p.names}
  def pull(self):
    p, t = self.p, self.t
    n = 0 if p.script is None else len(p.script)
    z = t.call('sample', next, self.gen, None)
    if self.left() <= 0:
      t.check(z is None, 'stop:more', 'sampler {} yields more than {}'.format(self.i, self.stop))
      self.done = True; return
    t.check(z is not None, 'stop:fewer', 'sampler {} ends after {} of {}'.format(self.i, self.pulled, self.stop))
    self.see(z, p.script[n:] if p.script is not None else None)
  def walk(self, k):
    p, t = self.p, self.t
    n = 0 if p.script is None else len(p.script)
    zs = t.call('walk', p.sp.walk, self.gen, **({} if k is None else {'stop': k}))
    want = self.left() if k is None else min(k, self.left())
    if k is None or k > self.left(): self.done = True
    t.check(len(zs) == want, 'walk:number', 'sampler {} walks {} samples of {}'.format(self.i, len(zs), want))
    script = None if p.script is None else p.script[n:]
    if script is not None: t.check(len(script) == len(zs), 'walk:asked', '{} decisions for {} samples'.format(len(script), len(zs)))
    for j, z in enumerate(zs): self.see(z, None if script is None else script[j:j + 1])
  def see(self, z, script):
    p, t = self.p, self.t
    self.pulled += 1
    self.got.append(z)
    what = 'sampler {} sample {}'.format(self.i, self.pulled)
    if p.plain:
      t.check(isinstance(z, pb.PD), 'plain:type', repr(type(z)))
      v = self.values(z)
      for k, x in (self.start or {}).items():
        t.check(isinstance(x, set) or v[k] == x, 'plain:fixed', '{} {}: {} not {}'.format(what, k, v[k], x))
      for k in v: t.check(-1e4 < v[k] < 1e4, 'plain:inside')
      self.prob(z, v, what)
      return
    succ = self.values(z.q, "'")
    t.check(self.values(z.p) == succ, 'proposed', '{}: {} {}'.format(what, self.values(z.p), succ))
    if not p.prop:
      pred = self.values(z.q)
      t.check(pred == self.state, 'continue:state', '{} starts at {} rather than {}'.format(what, pred, self.state))
    if p.prop and self.first: want = self.start
    else: want = p.move(self.state, self.turn) if p.move else None
    if want is not None: t.check(all(abs(succ[k] - want[k]) < 1e-12 * (1. + abs(want[k])) for k in want), 'continue:moved', '{} at {}: moves to {} rather than {}'.format(what, self.state, succ, want))
    if want is None and not p.move:
      for k in succ: t.check(-1e4 < succ[k] < 1e4, 'inside')
    self.turn += 1
    self.prob(z.p, succ, what)
    t.close(model.true_logp(z.q.prob, z.q.pscale), p.qlog, 'proposal:prob', what, rtol=1e-9, atol=1e-9)
    for k in p.data_names: t.check(z.p[k] == {len(p.data[k])}, 'data', repr(z.p[k]))
    if self.first or p.prop: t.check(z.o is None, 'first:predecessor', repr(z.o))
    else:
      t.check(self.values(z.o) == self.state, 'predecessor', '{} {}'.format(self.values(z.o), self.state)); self.prob(z.o, self.state, what)
    u = z.u
    if p.rule == 'none': t.check(u is None and z.s is None and z.t is None, 'unruled'); ok = True
    elif p.rule == 'scripted':
      t.check(len(script) == 1, 'update:asked', '{} decisions for a sample'.format(len(script)))
      t.check(u is script[0] or (u is not None and script[0] is not None and bool(u) == script[0]), 'update:value', '{} {}'.format(u, script))
      t.check(abs(z.s - float(z.p.prob)) <= 1e-12 * abs(z.s), 'score'); t.check(2. <= z.t <= 3., 'threshold')
      ok = bool(u)
    elif p.rule == 'gibbs': t.check(u is True or u == True, 'gibbs'); ok = True
    else:
      ok = bool(u)
      if self.first: t.check(ok, 'first:accept')
    accept = ok or self.first
    if accept: t.check(z.v is not None and self.values(z.v) == succ, 'reported', what)
    elif z.o is not None: t.check(self.values(z.v) == self.state, 'reported', what)
    if accept: self.state = succ
    self.first = False
  def prob(self, d, v, what):
    p = self.p
    self.t.check(model.near(model.true_logp(d.prob, d.pscale), p.target(v), tol=1e-8, pscale=d.pscale), 'prob',
                 '{} at {}: log {} want {}'.format(what, v, model.true_logp(d.prob, d.pscale), p.target(v)))
  def reset(self):
    self.t.call('reset', self.p.sp.reset, self.gen)
    self.pulled = self.turn = 0; self.first = True; self.state = self.start
  def summary(self, samples=None):
    p, t = self.p, self.t
    samples = self.got if samples is None else samples
    if not samples: return
    form = t.choice([list, tuple, collections.deque])
    out = t.call('summary', p.sp, form(samples))
    if p.plain:
      compare(t, out, samples, 'summary'); return
    kept = [z for z in samples if z.u is None or bool(z.u)]
    for key in 'opqrv':
      parts = [getattr(z, key) for z in kept if getattr(z, key) is not None]
      got = getattr(out, key)
      if not parts: t.check(got is None, 'summary:empty', key); continue
      compare(t, got, parts, 'summary:' + key)
    for key in 'st':
      parts = [getattr(z, key) for z in kept if getattr(z, key) is not None]
      got = getattr(out, key)
      t.check(list(got or []) == parts or (parts and all(x == y or (x != x and y != y) for x, y in zip(got, parts)) and len(got) == len(parts)), 'summary:' + key)
    if p.rule != 'none':
      t.check(len(out.u) == len(kept) and all(bool(a) == bool(z.u) and (a is None) == (z.u is None) for a, z in zip(out.u, kept)), 'summary:u', '{} {}'.format(out.u, [z.u for z in kept]))
    else: t.check(not out.u, 'summary:u')

def compare(t, got, parts, kind):
  """ The summary holds every part once, in order. """
  model.layout_ok(t, got, kind)
  t.check(np.size(got.prob) == len(parts), kind + ':count', '{} of {}'.format(np.size(got.prob), len(parts)))
  t.check(list(got.marg) == list(parts[0].marg) and list(got.cond) == list(parts[0].cond), kind + ':roles', got.name)
  t.check(got.pscale == parts[0].pscale, kind + ':pscale')
  prob = np.ravel(got.prob)
  for k in parts[0].keys():
    if isinstance(parts[0][k], set):
      t.check(got[k] == {sum(list(d[k])[0] for d in parts)}, kind + ':set', repr(got[k]))
    else:
      t.check(np.array_equal(np.ravel(got[k]), [one(d[k]) for d in parts]), kind + ':values', k)
  for i, d in enumerate(parts):
    t.check(prob[i] == one(d.prob) or (prob[i] != prob[i]), kind + ':prob', 'entry {}: {} {}'.format(i, prob[i], d.prob))

def schedule(t):
  kind = t.choice(sorted(KINDS))
  p = KINDS[kind](t)
  rule(t, p, kind)
  ps = [p]
  if kind == 'data' and t.chance(.5):     # another process of the same parameters
    p2 = p_data(t, p.shared); rule(t, p2, kind); ps.append(p2)
  ts, acts = [], collections.Counter()
  def open_():
    q = t.choice(ps); s = Tracked(t, q, len(ts)); ts.append(s); acts['open'] += 1
  for _ in range(t.int(1, 3)): open_()
  for _ in range(t.choice([10, 30, 60])):
    s = t.choice(ts)
    a = t.choice(['pull'] * 10 + ['walk', 'walk', 'open', 'summary', 'other', 'reset'])
    if a == 'pull':
      s.pull(); acts['end' if s.done else 'pull'] += 1
    elif a == 'walk' and not s.done:
      if s.stop is None: s.walk(t.int(0, 6))
      else: s.walk(t.choice([None, 0, 1, 3, 8]))
      acts['walk'] += 1
    elif a == 'open' and len(ts) < 5: open_()
    elif a == 'summary':
      n = len(s.got); i = t.choice([0, 0, t.int(0, n)]); s.summary(s.got[i:]); acts['summary'] += 1
    elif a == 'other':
      q = s.p; v = {k: (x if not isinstance(x, set) else 0.) for k, x in q.init(t).items()}
      if q.data is None: t.call('other', q.sp, v)
      if q.move and not q.prop and t.chance(.5): t.call('other step', q.sp.step, v)
      acts['other'] += 1
    elif a == 'reset' and not s.done and s.left() > 0 and t.chance(.5):
      s.reset(); acts['reset'] += 1
  for s in ts:
    if s.stop is not None:
      if not s.done and t.chance(.7): s.walk(None)
      while not s.done: s.pull()
      s.pull(); s.pull()
    s.summary()
    if s.how == 'dict': t.check(s.args[0] == s.given and list(s.args[0].keys()) is not None, 'arguments', 'initial values changed: {}'.format(s.args[0]))
  t.cover(kind, p.rule, len(ps), min(4, len(ts)), tuple(sorted(acts)), p.move is not None, p.groups)
  t.sample({'process': kind, 'rule': p.rule, 'actions': dict(acts), 'samples': [len(s.got) for s in ts]})

def normal(t, got, parts, kind, leafs):
  """ The summary given the leafs: the weights of the parts, normalised. """
  model.layout_ok(t, got, kind)
  t.check(set(got.cond) == set(parts[0].cond) | set(leafs) and set(got.marg) == set(parts[0].marg) - set(leafs), kind + ':roles', got.name)
  want = np.array([model.true_logp(d.prob, d.pscale) for d in parts])
  want = want - scipy.special.logsumexp(want)
  seen = np.array([model.true_logp(x, got.pscale) for x in np.ravel(got.prob)])
  t.check(len(seen) == len(want), kind + ':count', '{} of {}'.format(len(seen), len(want)))
  t.close(seen, want, kind + ':prob', rtol=1e-8, atol=1e-8)
  for k in parts[0].keys():
    if isinstance(parts[0][k], set): t.check(got[k] == {sum(list(d[k])[0] for d in parts)}, kind + ':set', repr(got[k]))
    else: t.check(np.array_equal(np.ravel(got[k]), [one(d[k]) for d in parts]), kind + ':values', k)

def summarise(t):
  """ Samples taken one by one, without samplers, and summaries given the data. """
  kind = t.choice(['delta', 'turns', 'matrix', 'data', 'data', 'prop', 'plain'])
  p = KINDS[kind](t)
  while kind == 'data' and not p.ckw['joint']: p = KINDS[kind](t)
  n = t.int(1, 8)
  extra = (p.data,) if p.data is not None else ()
  how = 'sampler' if kind in ('data', 'plain') and t.chance(.4) else 'sample'
  start = p.init(t)
  if how == 'sampler':
    zs = t.call('walk', p.sp.walk, t.call('sampler', p.sp.sampler, dict(start), *extra, stop=n, **p.ckw))
    t.check(len(zs) == n, 'summarise:number', '{} of {}'.format(len(zs), n))
  else:
    state, zs = start, []
    arg = dict(start)
    for i in range(n):
      z = t.call('sample', p.sp.sample, arg, *extra, **p.ckw)
      zs.append(z)
      if p.plain: continue
      v = {k: one(z.p[k]) for k in p.names}
      if p.move and not (p.prop and i == 0):
        want = p.move(state, i)
        t.check(all(abs(v[k] - want[k]) < 1e-12 * (1. + abs(want[k])) for k in want), 'summarise:moved', '{} to {} not {}'.format(state, v, want))
      t.check(model.near(model.true_logp(z.p.prob, z.p.pscale), p.target(v), tol=1e-8, pscale=z.p.pscale), 'summarise:prob', 'at {}'.format(v))
      if not p.prop and i: t.check(one(z.o.prob) == one(zs[-2].p.prob) and all(one(z.o[k]) == state[k] for k in p.names), 'summarise:predecessor', repr(z))
      state, arg = v, z
  form = t.choice([list, tuple, collections.deque])
  cond = kind == 'data' and t.chance(.6)
  if p.plain:
    compare(t, t.call('summary', p.sp, form(zs)), zs, 'summarise')
  else:
    flat = kind == 'data' and t.chance(.4)
    if flat:       # distributions alone
      ps = [z.p for z in zs]
      out = t.call('summary', p.sp, form(ps), **({'conditionalise': True} if cond else {}))
      if cond: normal(t, out, ps, 'summarise:given', p.data_names)
      else: compare(t, out, ps, 'summarise')
    else:
      out = t.call('summary', p.sp, form(zs), **({'conditionalise': True} if cond else {}))
      for key in 'opqr':
        parts = [getattr(z, key) for z in zs if getattr(z, key) is not None]
        got = getattr(out, key)
        if not parts: t.check(got is None, 'summarise:empty', key)
        elif cond and key in 'op': normal(t, got, parts, 'summarise:given:' + key, p.data_names)
        else: compare(t, got, parts, 'summarise:' + key)
  t.cover('summarise', kind, n, how, form.__name__, cond)

STAGES = {'summarise': (summarise, 1200, 8000), 'schedule': (schedule, 5000, 30000)}
