""" C11: increments move variables by the amounts asked and keep them in bounds. """
import math
import numpy as np
import scipy.stats
import probayes as pb
from pbmon import zoo
from pbmon.core import Skip

RULE = ('a case declares a variable or field, sets or passes increments of every kind and compares each value returned '
        'with the declared step; chains keep stepping against the limits; cases count by declaration, kind and route')
ASSUMPTIONS = ['integer variables take integer increments and bounded ones have contiguous sets',
               'transformations are invertible over the whole real line',
               'random steps are judged by tests with a false-alarm probability below 1e-9 each',
               'tuple increments of boolean variables and scaled spherical increments are not specified by the documentation']
P = 1e-9
WHOLE = [k for k, v in zoo.TRANS.items() if v[5]]

def declare(t, kind=None, name='x', cls=None):
  kind = kind or t.choice(['bool', 'int', 'float', 'float', 'float'])
  tr = t.choice(sorted(WHOLE)) if kind == 'float' and t.chance(.4) else False
  r = zoo.ref(t, kind=kind, trans=tr, contiguous=True, finite=True)
  if kind == 'bool': r.vals = [False, True]
  if kind == 'float' and not tr and t.chance(.2):
    if t.chance(.5): r.lo = -math.inf; r.open = (True, r.open[1])
    if t.chance(.5): r.hi = math.inf; r.open = (r.open[0], True)
  return r, zoo.build(t, name, r, cls=cls)

def amount(t, r):
  """ A step size, in transformed coordinates. """
  if r.kind == 'int': return t.choice([1, 1, 2, 3, 5])
  if r.kind == 'bool': return 1
  size = r.length if math.isfinite(r.length) else 10.
  return float(t.choice([.01, .1, .3, 1., 2.5]) * size * (.5 + t.rng.random()))

def start(t, r, form=None):
  """ Start value(s) in the set. """
  form = form or t.choice(['scalar', 'npscalar', 'array', 'array2'])
  if form == 'scalar': return r.pick(t)
  if form == 'npscalar': return np.asarray(r.pick(t))[()]
  n = t.int(1, 5)
  xs = np.array([r.pick(t) for _ in range(n)])
  return xs if form == 'array' else xs.reshape([1, n] if t.chance(.5) else [n, 1])

def moved(t, r, before, after, d, kind, bound=False):
  """ after is before moved by d (in transformed coordinates), within limits if bound. """
  t.check(np.shape(after) == np.shape(before), kind + ':shape', '{} -> {}'.format(np.shape(before), np.shape(after)))
  dd = np.broadcast_to(d, np.shape(before))
  for x, y, e in zip(np.ravel(before), np.ravel(after), np.ravel(dd)):
    x, y, e = x.item(), np.asarray(y).item(), e.item()
    msg = '{}: {} by {} gave {} (bound={})'.format(r, x, e, y, bound)
    if bound: t.check(r.inside(y), kind + ':inside', msg)
    if r.kind == 'bool':
      t.check(bool(y) == (bool(x) != bool(e)), kind + ':flip', msg); continue
    if r.kind == 'int':
      want = x + e
      if bound: want = min(max(want, min(r.vals)), max(r.vals))
      t.check(y == want, kind + ':amount', msg); continue
    u = float(r.fwd(x)) + e
    with np.errstate(all='ignore'): want = float(r.inv(u))
    if not math.isfinite(want) or abs(want) > 1e12: continue
    tol = 1e-9 * (abs(u) + abs(e) + abs(float(r.fwd(x))))
    if bound:
      edge = 1e-7 * (1. + abs(want))
      if abs(want - r.lo) < edge or abs(want - r.hi) < edge: continue    # rounding decides
      if want < r.lo:
        t.check(y == (x if r.open[0] else r.lo), kind + ':lower', msg); continue
      if want > r.hi:
        t.check(y == (x if r.open[1] else r.hi), kind + ':upper', msg); continue
    t.check(abs(float(r.fwd(y)) - u) <= tol or abs(y - want) <= 1e-9 * (1. + abs(want)), kind + ':amount', msg)

def value(d):
  """ The number in a (nested) increment. """
  while isinstance(d, tuple): d = d[0]
  return d

def fixed(t):
  r, v = declare(t, cls=t.choice([pb.Variable, pb.Variable, pb.RV]))
  d = t.choice([amount(t, r), -amount(t, r), 0]) if r.kind != 'bool' else t.choice([True, False, 1, 0])
  xs = start(t, r)
  keep = np.copy(xs)
  how = t.choice(['scalar', 'Delta', 'default', 'default-Delta', 'eval', 'eval-default', 'scale'])
  bound = t.choice([None, True, False]); eff = bool(bound)
  kw = {}
  if how == 'scale' and (r.kind != 'float' or not math.isfinite(r.length)): how = 'default'
  if how in ('default', 'default-Delta', 'eval-default', 'scale') and t.chance(.5):
    kw['bound'] = t.chance(.5)
    if bound is None: eff = kw['bound']
  akw = {} if bound is None else {'bound': bound}
  if how in ('default', 'eval-default'): t.call('set_delta', v.set_delta, d, **kw)
  if how == 'default-Delta': t.call('set_delta', v.set_delta, v.Delta(d), **kw)
  e = d
  if how == 'scale':
    f = t.choice([.05, .3, -1.2, 0.]); e = f * r.length
    t.call('set_delta', v.set_delta, f, scale=True, **kw)
  if how == 'scalar': y = t.call('apply_delta', v.apply_delta, xs, d, **akw)
  elif how == 'Delta': y = t.call('apply_delta', v.apply_delta, xs, v.Delta(d), **akw)
  elif how in ('default', 'default-Delta', 'scale'): y = t.call('apply_delta', v.apply_delta, xs, **akw)
  else:
    got = t.call('eval_delta', v.eval_delta, *([] if how == 'eval-default' else [t.choice([d, v.Delta(d)])]))
    t.check(isinstance(got, v.Delta), 'eval:type', repr(got))
    t.close(value(got), d, 'eval:value', rtol=1e-12)
    y = t.call('apply_delta', v.apply_delta, xs, got, **akw)
  moved(t, r, xs, y, e, how, bound=eff)
  t.check(np.array_equal(keep, xs), 'operand', 'start values were modified')
  t.cover('fixed', how, r.sig(), eff, np.shape(xs), np.sign(int(e) if r.kind != 'float' else e))
  t.sample('{} {} by {} bound={}: {} -> {}'.format(r, how, e, eff, keep, y))

def steps(t, r, v, n, route, spec, scale):
  """ n independently drawn steps, in transformed coordinates. """
  out = []
  for _ in range(n):
    if route == 'eval': out.append(value(t.call('eval_delta', v.eval_delta, *([] if spec is None else [spec]))))
    else:
      x = r.pick(t)
      y = t.call('apply_delta', v.apply_delta, x, *([] if spec is None else [spec]))
      out.append(int(y) - int(x) if r.kind != 'float' else float(r.fwd(y)) - float(r.fwd(x)))
  return np.array(out)

def random(t):
  r, v = declare(t)
  d = abs(amount(t, r))
  box = t.choice(['list', 'list', 'tuple']) if r.kind != 'bool' else 'list'
  p = None
  if r.kind == 'bool': p = d = t.choice([0., .1, .3, .7, 1.])
  wrap = (lambda z: [z]) if box == 'list' else (lambda z: (z,))
  route = t.choice(['eval', 'apply'])
  scale = r.kind == 'float' and math.isfinite(r.length) and t.chance(.3)
  if scale:
    f = t.choice([.02, .2, .9]); d = f * r.length
    t.call('set_delta', v.set_delta, wrap(f), scale=True); spec = None
  elif t.chance(.4):
    t.call('set_delta', v.set_delta, wrap(d)); spec = None
  else:
    spec = t.choice([wrap(d), v.Delta(wrap(d))])
    if r.kind == 'bool' and route == 'apply': spec = wrap(d)
  n = 200
  s = steps(t, r, v, n, route, spec, scale)
  tag = '{} {} {} scale={}'.format(r, wrap(d), route, scale)
  if r.kind == 'bool':
    s = np.array([abs(int(z)) for z in s])
    t.check(set(s) <= {0, 1}, 'random:flip', tag)
    k = int(s.sum())
    pv = scipy.stats.binomtest(k, n, p).pvalue
    t.check(pv > P, 'random:flip', '{}: {} of {} flipped'.format(tag, k, n))
  elif box == 'tuple':
    t.close(np.abs(s), np.full(n, float(d)), 'random:size', tag, rtol=1e-6, atol=1e-6 * d)
    pv = scipy.stats.binomtest(int(np.sum(s > 0)), n, .5).pvalue
    t.check(pv > P, 'random:sign', '{}: {} of {} up'.format(tag, int(np.sum(s > 0)), n))
  elif r.kind == 'int':
    t.check(np.all(np.abs(s) <= d), 'random:exceeds', tag)
    c = [int(np.sum(s == z)) for z in range(-d, d + 1)]
    t.check(sum(c) == n, 'random:exceeds', tag)
    pv = scipy.stats.chisquare(c).pvalue
    t.check(pv > P, 'random:uniform', '{}: {}'.format(tag, c))
  else:
    t.check(np.all(np.abs(s) <= d * (1 + 1e-6)), 'random:exceeds', tag)
    pv = scipy.stats.kstest(s, 'uniform', args=(-d, 2 * d)).pvalue
    t.check(pv > P, 'random:uniform', '{}: p={}'.format(tag, pv))
  t.cover('random', box, r.sig(), route, spec is None, scale)

def chain(t):
  """ A long walk of bounded steps never leaves the set. """
  r, v = declare(t)
  xs = start(t, r)
  how = t.choice(['argument', 'default', 'default-scale', 'callable'])
  kinds = []
  def draw():
    d = amount(t, r)
    if r.kind == 'bool': return t.choice([True, False, [.3], [1.]])
    return t.choice([d, -d, [d], (d,), -d / (2. if r.kind == 'float' else 1)])
  if how == 'default': t.call('set_delta', v.set_delta, draw(), bound=True)
  if how == 'default-scale':
    if not (r.kind == 'float' and math.isfinite(r.length)): raise Skip()
    t.call('set_delta', v.set_delta, t.choice([[.4], (.2,), .3, -.7]), scale=True, bound=True)
  if how == 'callable':
    if r.kind == 'bool': raise Skip()
    k = amount(t, r)
    t.call('set_delta', v.set_delta, t.choice([lambda x: x + k, lambda x: x - k, lambda x: x + k * np.random.standard_normal()]),
           bound=True) if r.kind == 'float' else t.call('set_delta', v.set_delta, lambda x: x + k, bound=True)
  events = 0
  for _ in range(40):
    d = draw()
    keep = np.copy(xs)
    if how == 'argument':
      if t.chance(.3) and not (r.kind == 'bool' and isinstance(d, list)): d = v.Delta(d)
      ys = t.call('apply_delta', v.apply_delta, xs, d, bound=True)
    else: ys = t.call('apply_delta', v.apply_delta, xs)
    t.check(np.shape(ys) == np.shape(xs), 'chain:shape', '{} {}'.format(np.shape(xs), np.shape(ys)))
    t.check(np.array_equal(keep, xs), 'operand', 'start values were modified')
    for x, y in zip(np.ravel(xs), np.ravel(ys)):
      t.check(r.inside(np.asarray(y).item()), 'chain:inside', '{}: {} by {} ({}) -> {}'.format(r, x, d, how, y))
      events += x != y
    xs = ys
  t.cover('chain', how, r.sig(), np.shape(xs), min(events, 3))

def field(t):
  """ Fields move every variable by its own increment. """
  m = t.int(1, 4)
  cls = t.choice(['Field', 'RF'])
  rs, vs = {}, []
  kind = t.choice(['scalar', 'scalar', 'list', 'dict', 'Delta', 'explicit', 'sphere', 'cov'])
  for i in range(m):
    r, v = declare(t, kind='float' if kind in ('scalar', 'list', 'sphere', 'cov') else None, name='vwxyz'[i],
                   cls=pb.Variable if cls == 'Field' else pb.RV)
    if kind in ('sphere', 'cov') and not math.isfinite(r.length): raise Skip()
    rs[v.name] = r; vs.append(v)
  f = t.call(cls, pb.Field if cls == 'Field' else pb.RF, *vs)
  names = [v.name for v in vs]
  t.check(list(f.keylist) == names, 'field:names', repr(f.keylist))
  scale = kind in ('scalar', 'list', 'dict') and t.chance(.4) and all(r.kind == 'float' and math.isfinite(r.length) for r in rs.values())
  bound = t.chance(.4)
  L = None
  own = {}      # variables with their own, unscaled, increments
  if kind in ('scalar', 'list', 'sphere') and m > 1 and t.chance(.4):
    for n in t.shuffled(names)[:t.int(1, m - 1)]: own[n] = amount(t, rs[n])
  arg = [own] if own else []
  kw = {}
  if scale: kw['scale'] = True
  if bound or t.chance(.5): kw['bound'] = bound
  base = float(t.choice([.03, .2, .8])) if scale else float(t.choice([.2, 1.5, 6.]))
  want = {}     # exact amount, or a limit as a list
  L1 = lambda n: rs[n].length if scale else 1.
  if kind == 'scalar':
    base *= t.choice([1, -1, 0])
    t.call('set_delta', f.set_delta, base, *arg, **kw)
    want = {n: own.get(n, base * L1(n)) for n in names}
  elif kind == 'list':
    spec = {n: t.choice([x, [x], (x,)]) for n, x in own.items()}
    t.call('set_delta', f.set_delta, [base], *([spec] if own else []), **kw)
    want = {n: (spec[n] if n in own else [base * L1(n)]) for n in names}
  elif kind in ('dict', 'Delta', 'explicit'):
    val = {n: (amount(t, rs[n]) if not scale else base) if rs[n].kind != 'bool' else t.choice([0, 1]) for n in names}
    val = {n: (x if rs[n].kind == 'bool' else t.choice([x, [x], (x,), -x])) for n, x in val.items()}
    if kind == 'dict': t.call('set_delta(dict)', f.set_delta, {n: val[n] for n in t.shuffled(names)}, **kw)
    elif kind == 'Delta': t.call('set_delta(Delta)', f.set_delta, f.Delta(**val), **kw)
    else:
      bound = t.chance(.4)        # without increments of its own, the bounds of the variables prevail
      if bound:
        for v in vs: t.call('set_delta(own)', v.set_delta, amount(t, rs[v.name]) if rs[v.name].kind != 'bool' else True, bound=True)
    def mul(x, c): return [x[0] * c] if isinstance(x, list) else (x[0] * c,) if isinstance(x, tuple) else x * c
    want = {n: (val[n] if rs[n].kind == 'bool' else mul(val[n], L1(n))) for n in names}
  elif kind == 'sphere':
    t.call('set_delta(sphere)', f.set_delta, (base,), *arg, **kw)
  else:
    if cls != 'RF': raise Skip()
    A = t.np.standard_normal((m, m)); C = A @ A.T + .3 * np.eye(m)
    t.call('set_tran', f.set_tran, C)
    L = np.linalg.cholesky(C)
    t.call('set_delta', f.set_delta, base, **kw)
  form = t.choice(['scalar', 'array'])
  vals = {n: start(t, rs[n], form) for n in names}
  for _ in range(t.int(1, 6)):
    keep = {n: np.copy(x) for n, x in vals.items()}
    if kind == 'explicit':
      d = t.call('eval_delta', f.eval_delta, f.Delta(**val)) if t.chance(.5) else f.Delta(**val)
      got = t.call('apply_delta', f.apply_delta, vals, d)
    elif t.chance(.5): got = t.call('apply_delta', f.apply_delta, vals)
    else:
      d = t.call('eval_delta', f.eval_delta)
      t.check(isinstance(d, f.Delta), 'field:Delta', repr(d))
      got = t.call('apply_delta', f.apply_delta, vals, d)
    t.check(all(np.array_equal(keep[n], vals[n]) for n in names), 'operand', 'start values were modified')
    t.check(list(got.keys()) == names, 'field:keys', repr(got))
    for n in names:
      t.check(np.shape(got[n]) == np.shape(vals[n]), 'field:shape', '{} {} -> {}'.format(n, vals[n], got[n]))
      if bound:
        t.check(all(rs[n].inside(np.asarray(y).item()) for y in np.ravel(got[n])), 'field:inside', '{} {}'.format(rs[n], got[n]))
    diff = {n: np.ravel(rs[n].fwd(np.asarray(got[n]))) - np.ravel(rs[n].fwd(np.asarray(vals[n]))) if rs[n].kind != 'bool' else
               np.ravel(got[n]) != np.ravel(vals[n]) for n in names}
    if L is not None or kind == 'sphere':
      if not bound and all(np.all(np.isfinite(x)) and np.all(np.abs(rs[n].fwd(np.asarray(vals[n]))) < 1e6) for n, x in diff.items()):
        D = np.array([diff[n][0] for n in names])
        if L is not None:
          t.close(D, L @ np.full(m, base), 'field:correlated', rtol=1e-6, atol=1e-6)
        else:
          free = [i for i, n in enumerate(names) if n not in own]
          t.close(math.sqrt(sum(D[i]**2 for i in free)), base, 'field:radius', repr(rs), rtol=1e-6, atol=1e-6)
          for i, n in enumerate(names):
            if n in own: t.close(D[i], own[n], 'field:own', n, rtol=1e-6, atol=1e-6)
    else:
      for n in names:
        w, r = want[n], rs[n]
        if not isinstance(w, (list, tuple)):
          moved(t, r, vals[n], got[n], w, 'field-' + kind, bound=bound)
        elif not bound and np.all(np.abs(r.fwd(np.asarray(vals[n]))) < 1e6):
          a = np.abs(diff[n])
          if r.kind == 'float' and np.any(np.abs(np.asarray(got[n], dtype=float)) > 1e6): continue
          if isinstance(w, list):
            t.check(np.all(a <= w[0] * (1 + 1e-6) + 1e-6), 'field:exceeds', '{} {} {}'.format(r, w, diff[n]))
          else:
            t.close(a, np.full(a.shape, float(w[0])), 'field:size', '{} {}'.format(r, w), rtol=1e-6, atol=1e-6)
    if not bound: break     # unbounded steps may leave the set
    vals = got
  t.cover('field', cls, kind, m, scale, bound, bool(own), form, tuple(r.sig()[0] for r in rs.values()))

def flips(t):
  """ Each of many boolean values flips by itself with the probability asked. """
  r, v = declare(t, kind='bool')
  p = t.choice([0., .1, .3, .7, 1.])
  n = t.choice([50, 400])
  shape = t.choice([[n], [1, n], [n // 5, 5]])
  xs = t.np.random(size=n).reshape(shape) < t.choice([0., .5, 1.])
  keep = np.copy(xs)
  route = t.choice(['argument', 'default', 'dictionary'])
  kw = {'bound': True} if t.chance(.4) else {}
  if route == 'default':
    t.call('set_delta', v.set_delta, [p], **kw)
    ys = t.call('apply_delta', v.apply_delta, xs)
  else: ys = t.call('apply_delta', v.apply_delta, {v.name: xs} if route == 'dictionary' else xs, [p], **kw)
  t.check(np.array_equal(keep, xs), 'operand', 'start values were modified')
  t.check(np.shape(ys) == np.shape(xs), 'flips:shape', '{} {}'.format(np.shape(xs), np.shape(ys)))
  t.check(set(np.ravel(ys).tolist()) <= {True, False}, 'flips:type', repr(ys))
  k = (np.ravel(ys) != np.ravel(xs)).reshape(-1)
  pv = scipy.stats.binomtest(int(k.sum()), n, p).pvalue
  t.check(pv > P, 'flips:frequency', 'p={} {}: {} of {} flipped'.format(p, route, int(k.sum()), n))
  if p in (.3, .7):   # neighbours flip separately
    same = int(np.sum(k[1:] == k[:-1])); q = p * p + (1 - p) * (1 - p)
    pv = scipy.stats.binomtest(same, n - 1, q).pvalue if n > 100 else 1.
    t.check(pv > 1e-12, 'flips:independent', 'p={}: {} neighbours of {} agree'.format(p, same, n - 1))
  t.cover('flips', route, p, len(shape), bool(kw))

def single(t):
  """ A field of one variable moves by the variable's own increment unless it has its own. """
  cls = t.choice(['Field', 'RF', 'SD'])
  r, v = declare(t, cls=pb.Variable if cls == 'Field' else pb.RV)
  d = t.choice([amount(t, r), -amount(t, r)]) if r.kind != 'bool' else t.choice([True, False])
  when = t.choice(['before', 'after'])
  bound = t.chance(.4)
  bkw = {'bound': bound} if bound or t.chance(.5) else {}
  if when == 'before': t.call('set_delta', v.set_delta, d, **bkw)
  f = t.call(cls, pb.Field if cls == 'Field' else pb.RF if cls == 'RF' else pb.SD, v)
  if when == 'after': t.call('set_delta', v.set_delta, d, **bkw)
  obj = f if cls != 'SD' else f
  xs = start(t, r)
  e = d
  route = t.choice(['default', 'eval', 'own', 'field'])
  if route == 'field':      # the field's increment prevails
    e = t.choice([amount(t, r), -amount(t, r)]) if r.kind != 'bool' else t.choice([True, False])
    bound = t.chance(.4)
    t.call('set_delta', obj.set_delta, {v.name: e}, **({'bound': bound} if bound or t.chance(.5) else {}))
  if route in ('default', 'field'): got = t.call('apply_delta', obj.apply_delta, {v.name: xs})
  elif route == 'eval':
    delta = t.call('eval_delta', obj.eval_delta)
    t.check(isinstance(delta, obj.Delta) and len(delta) == 1, 'single:type', repr(delta))
    t.close(value(tuple(delta)), d, 'single:eval', rtol=1e-12)
    got = t.call('apply_delta', obj.apply_delta, {v.name: xs}, delta)
  else: got = t.call('apply_delta', obj.apply_delta, {v.name: xs}, v.Delta(d))
  if isinstance(got, dict):
    t.check(list(got.keys()) == [v.name], 'single:keys', repr(got)); got = got[v.name]
  else: t.check(route == 'own', 'single:keys', repr(got))
  moved(t, r, xs, got, e, 'single', bound=bound)
  t.cover('single', cls, r.sig(), when, route, bound, np.shape(xs))

def parts(t):
  """ A conditional model told to use its leafs' or roots' increments moves those variables only. """
  rs, lf, rt = {}, [], []
  for i in range(t.int(2, 5)):
    r, v = declare(t, name='uvwxy'[i], cls=pb.RV)
    rs[v.name] = r
    (lf if i == 0 or (i > 1 and t.chance(.5)) else rt).append(v)
  deltas = {n: t.choice([amount(t, r), -amount(t, r)]) if r.kind != 'bool' else t.choice([0, 1]) for n, r in rs.items()}
  fs, bounds = {}, {}
  for k, vs in (('leafs', lf), ('roots', rt)):
    fs[k] = t.call('RF', pb.RF, *vs)
    bounds[k] = t.chance(.4)
    t.call('set_delta', fs[k].set_delta, {v.name: deltas[v.name] for v in vs}, **({'bound': True} if bounds[k] else {}))
  s = t.call('SD', pb.SD, fs['leafs'], fs['roots']) if t.chance(.5) else t.call('|', lambda: fs['leafs'] | fs['roots'])
  form = t.choice(['scalar', 'array'])
  vals = {n: start(t, r, form) for n, r in rs.items()}
  which = t.choice([['leafs'], ['roots'], ['leafs', 'roots'], ['roots', 'leafs']])
  obj = t.chance(.4)
  for k in which:
    names = [v.name for v in (lf if k == 'leafs' else rt)]
    if k == 'roots' and which == ['roots'] and t.chance(.3):
      if bounds[k]: t.call('set_delta', fs[k].set_delta, None)
      t.call('set_delta(dict)', s.set_delta, {n: deltas[n] for n in t.shuffled(names)}, bound=bounds[k])
    else: t.call('set_delta(part)', s.set_delta, s.leafs if obj and k == 'leafs' else s.roots if obj else k)
    keep = {n: np.copy(x) for n, x in vals.items()}
    if t.chance(.5): got = t.call('apply_delta', s.apply_delta, vals)
    else:
      d = t.call('eval_delta', s.eval_delta)
      t.check(sorted(d._fields) == sorted(names), 'parts:fields', '{} {}'.format(k, d))
      got = t.call('apply_delta', s.apply_delta, vals, d)
    t.check(all(np.array_equal(keep[n], vals[n]) for n in rs), 'operand', 'start values were modified')
    t.check(set(got) == set(vals), 'parts:keys', repr(got))
    for n, r in rs.items():
      if n in names: moved(t, r, vals[n], got[n], deltas[n], 'parts', bound=bounds[k])
      else: t.check(np.array_equal(got[n], vals[n]), 'parts:others', '{} moved by increments of {}'.format(n, k))
    if not bounds[k]: break       # values may have left their sets
    vals = got
  if t.chance(.3):
    t.call('set_delta(None)', s.set_delta, None)
    got = t.call('apply_delta', s.apply_delta, vals)
    t.check(all(np.array_equal(got[n], vals[n]) for n in rs), 'parts:none', 'moved without increments')
  t.cover('parts', len(lf), len(rt), tuple(which), obj, form, tuple(bounds.values()), tuple(r.sig()[0] for r in rs.values()))

def independent(t):
  """ A list moves the variables of a field independently; spheres point anywhere. """
  m = t.int(2, 3)
  vs = [zoo.build(t, 'xyz'[i], zoo.ref(t, kind='float', trans=False)) for i in range(m)]
  f = t.call('Field', pb.Field, *vs)
  sph = t.chance(.5)
  d = t.choice([.1, 2.])
  t.call('set_delta', f.set_delta, (d,) if sph else [d])
  n = 300
  D = np.array([[value(x) for x in t.call('eval_delta', f.eval_delta)] for _ in range(n)])
  for i in range(m):
    p = scipy.stats.binomtest(int(np.sum(D[:, i] > 0)), n, .5).pvalue
    t.check(p > P, 'independent:sign', 'axis {} p={}'.format(i, p))
    for j in range(i):
      p = scipy.stats.binomtest(int(np.sum(D[:, i] * D[:, j] > 0)), n, .5).pvalue
      t.check(p > P, 'independent:sign', 'axes {},{} p={}'.format(i, j, p))
      p = scipy.stats.binomtest(int(np.sum(np.abs(D[:, i]) > np.abs(D[:, j]))), n, .5).pvalue
      t.check(p > P, 'independent:size', 'axes {},{} p={}'.format(i, j, p))
    if not sph:
      p = scipy.stats.kstest(D[:, i], 'uniform', args=(-d, 2 * d)).pvalue
      t.check(p > P, 'independent:uniform', 'axis {} p={}'.format(i, p))
  t.cover('independent', sph, m, d)

STAGES = {
  'fixed':       (fixed, 16000, 96000),
  'random':      (random, 1200, 7200),
  'flips':       (flips, 1600, 9600),
  'chain':       (chain, 2000, 12000),
  'single':      (single, 6000, 36000),
  'parts':       (parts, 3200, 19200),
  'field':       (field, 10000, 60000),
  'independent': (independent, 160, 960),
}
