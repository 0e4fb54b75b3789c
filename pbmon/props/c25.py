""" C25: the last declaration counts, whenever it is made. """
import math, random
import numpy as np
import scipy.stats
import sympy, sympy.stats
import probayes as pb
from probayes.func import Func
from pbmon import gen, model
from pbmon.core import Skip

RULE = ('a case makes a random history of declarations, uses and compositions of variables, fields, conditional models or processes, '
        'and the same objects with superseded declarations, uses and unrelated objects left out and variables declared before they are '
        'combined; every value, probability, step and sample of both is compared; cases count by the kinds of declaration superseded')
ASSUMPTIONS = ['random results are compared with the generators of Python and NumPy seeded alike, and only if a second copy of the '
               'reference reproduces them',
               'probability scales are declared together with probabilities']

# ---------------------------------------------------------------- results

def plain(z):
  """ Comparable content of a result. """
  if isinstance(z, pb.PD):
    lp = np.asarray(z.prob, dtype=float)
    with np.errstate(all='ignore'):
      p = np.array([model.true_logp(v, z.pscale) for v in lp.ravel()]).reshape(lp.shape)
    return ('PD', z.name, dict(z.dims), {k: plain(v) for k, v in z.items()}, ('logp', p))
  if isinstance(z, pb.Distribution): return ('D', z.name, {k: plain(v) for k, v in z.items()})
  if isinstance(z, dict): return {k: plain(v) for k, v in z.items()}
  if isinstance(z, tuple) and hasattr(z, '_fields'): return (z._fields, [plain(v) for v in z])
  if isinstance(z, (list, tuple)): return [plain(v) for v in z]
  if isinstance(z, set): return ('set', sorted(z))
  if isinstance(z, str) or z is None or isinstance(z, bool): return z
  return np.asarray(z)

def same(a, b):
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape: return False
    if a.dtype == object or b.dtype == object: return bool(np.all(a == b))
    return bool(np.allclose(a.astype(float), b.astype(float), rtol=1e-7, atol=1e-9, equal_nan=True))
  if type(a) is not type(b): return False
  if isinstance(a, dict): return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
  if isinstance(a, tuple) and len(a) == 2 and a[0] == 'logp':
    x, y = np.maximum(a[1], -800.), np.maximum(b[1], -800.)     # linear probabilities underflow
    return x.shape == y.shape and bool(np.allclose(x, y, rtol=1e-7, atol=1e-7, equal_nan=True))
  if isinstance(a, (list, tuple)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  return a == b

# ---------------------------------------------------------------- declarations

class Decl:
  """ A declaration of one kind on one object. """
  def __init__(self, target, kind, text, do):
    self.target, self.kind, self.text, self.do = target, kind, text, do
  def __repr__(self): return '{}.{}'.format(self.target, self.text)

POSITIVE = [[.5, 4.5], (1., 3.), [.25, (8.,)], [(1.,), 2.]]
INTS = [[0, 1, 2, 3], [1, 2, 3, 4], [-2, 0, 2, 5], {3, 5, 7, 9}]
SCALES = [1., 1., 'log', 'log', 2., 0j, complex(1.5, 0.)]

def linlog(lin, scale):
  """ A function of values stored at a scale. """
  c = gen.norm_scale(scale)
  return (lambda v: np.log(lin(v)) - c.real) if isinstance(c, complex) else (lambda v: lin(v) / c)

def bounded(v): return v >= 0.

def var_decl(t, k, vt, kind, state):
  """ A random declaration for variable k. """
  if kind == 'vset':
    s = t.choice(POSITIVE if vt is float else INTS)
    def do(o): o.vset = s
    return Decl(k, kind, 'vset = {}'.format(s), do)
  if kind == 'ufun':
    how = t.choice(['none', 'log', 'square', 'recip', 'expr'])
    def do(o):
      if how == 'none': o.set_ufun(None)
      elif how == 'log': o.set_ufun((lambda x: np.log(x), lambda u: np.exp(u)))
      elif how == 'square': o.set_ufun((lambda x, p: x**p, lambda u, p: u**(1. / p)), p=2.)
      elif how == 'recip': o.set_ufun((lambda x: 1. / x, lambda u: 1. / u))
      else: o.set_ufun(1. / o[:] + 1.)
    return Decl(k, kind, 'set_ufun({})'.format(how), do)
  if kind == 'prob':
    how = t.choice(['none', 'scalar', 'func'] + (['expon', 'gamma', 'args', 'sympy'] if vt is float and not state['ufun'] else
                                                 ['table', 'table'] if vt is int else ['bias', 'bias'] if vt is bool else []))
    sc = t.choice(state.get('scales', SCALES)); c = t.choice([.2, .5, .9])
    tab = [t.rng.uniform(.05, 1.) for _ in range(4)]
    r = t.choice([.3, 1., 2.5])
    def do(o):
      kw = {'pscale': sc}
      if how == 'none': o.set_prob(None, **kw)
      elif how in ('scalar', 'bias'): o.set_prob(float(model.stored(math.log(c), gen.norm_scale(sc))), **kw)
      elif how == 'func': o.set_prob(linlog(lambda v: np.exp(-r * np.abs(v)), sc), **kw)
      elif how == 'table': o.set_prob(np.array([model.stored(math.log(p), gen.norm_scale(sc)) for p in tab]), **kw)
      elif how == 'expon': o.set_prob(scipy.stats.expon, scale=r, pscale=t_log(sc))
      elif how == 'gamma': o.set_prob(scipy.stats.gamma, a=r, pscale=t_log(sc))
      elif how == 'args': o.set_prob(scipy.stats.norm, r, 1.5, pscale=t_log(sc))
      else: o.set_prob(sympy.stats.Exponential(o.name, {.3: 1, 1.: 2, 2.5: sympy.Rational(1, 2)}[r]), pscale=t_log(sc))
    return Decl(k, kind, 'set_prob({}, pscale={}) {} {} {}'.format(how, sc, c, r, tab if how == 'table' else ''), do)
  if kind == 'tran':
    how = t.choice(['scalar', 'func', 'asym'] if vt is float else ['scalar', 'matrix', 'tuple', 'func'])
    n = 2 if vt is bool else 4
    m = np.array([[t.rng.uniform(.1, 1.) for _ in range(n)] for _ in range(n)]); m = m / m.sum(axis=0)
    s = m + m.T
    if t.chance(.5): m = s
    r = t.choice([.3, 1., 2.5]); c = t.choice([.2, .5])
    def do(o):
      f = lambda **kw: np.exp(-r * (1. * kw[k] - 1. * kw[k + "'"])**2)
      g = lambda **kw: np.exp(-r * (1. * kw[k] - 2. * kw[k + "'"])**2)
      if how == 'scalar': o.set_tran(c)
      elif how == 'func': o.set_tran(f)
      elif how == 'asym': o.set_tran((f, g))
      elif how == 'matrix': o.set_tran(m)
      else: o.set_tran((m, m.T / m.T.sum(axis=0)))
    return Decl(k, kind, 'set_tran({}) {} {}'.format(how, r, m.tolist() if how in ('matrix', 'tuple') else c), do)
  if kind == 'tfun':
    r = t.choice([.3, 1., 2.5])
    def do(o):
      o.set_tfun((lambda **kw: 1. - np.exp(-r * kw[k + "'"]), lambda **kw: -np.log(1. - kw[k + "'"]) / r))
    return Decl(k, kind, 'set_tfun({})'.format(r), do)
  if kind == 'delta':
    how = t.choice(['none', 'scalar', 'list', 'tuple', 'func', 'Delta']); d = t.choice([.1, .25]) if vt is float else 1
    if vt is bool: how = t.choice(['none', 'scalar', 'list'])
    kw = {}
    if vt is not bool and how != 'func' and t.chance(.5): kw['bound'] = t.chance(.7)
    if vt is float and how in ('scalar', 'list', 'tuple') and t.chance(.4): kw['scale'] = t.chance(.7)
    if vt is bool and how == 'list': d = .4
    def do(o):
      if how == 'none': o.set_delta(None)
      elif how == 'scalar': o.set_delta(d, **kw)
      elif how == 'list': o.set_delta([d], **kw)
      elif how == 'tuple': o.set_delta((d,), **kw)
      elif how == 'Delta': o.set_delta(o.Delta(d), **kw)
      else: o.set_delta(lambda: o.Delta(d))
    return Decl(k, kind, 'set_delta({} {} {})'.format(how, d, kw), do)

def t_log(sc):
  return 'log' if isinstance(gen.norm_scale(sc), complex) else 1.

KINDS = {float: ['vset', 'ufun', 'prob', 'tran', 'tfun', 'delta'], int: ['vset', 'prob', 'tran', 'delta'], bool: ['prob', 'tran', 'delta']}

# ---------------------------------------------------------------- probes of variables

def inside(t, vt):
  return {float: lambda: t.choice([1.25, 1.5, 1.75, 1.9]), int: lambda: t.choice([2, 3, 5]), bool: lambda: t.chance(.5)}[vt]()

def var_probes(t, k, vt):
  """ Uses of variable k, all within its interface if the last declarations allow. """
  out = []
  def add(text, do): out.append((k + text, do))
  xs = np.array([inside(t, vt) for _ in range(3)]); x, y = inside(t, vt), inside(t, vt)
  n = t.int(2, 5)
  add('({})'.format(xs), lambda w: w[k](xs))
  add('({})'.format(x), lambda w: w[k](x))
  add('({%d})' % n, lambda w: w[k]({n}))
  add('({-9})', lambda w: w[k]({-9}))
  add('({0})', lambda w: w[k]({0}))
  add('.step({}, {})'.format(x, y), lambda w: w[k].step(x, y))
  add('.step({}, {})'.format(xs, y), lambda w: w[k].step(xs, y))
  add('.step({}, reverse)'.format(x), lambda w: w[k].step(x, xs, reverse=True))
  add('.step({}, {{0}})'.format(x), lambda w: w[k].step(x, {0}))
  add('.step({})'.format(x), lambda w: w[k].step(x))
  add('.apply_delta({})'.format(x), lambda w: w[k].apply_delta(x))
  add('.apply_delta([{}])'.format(x), lambda w: w[k].apply_delta(np.array([x, y])))
  add('.length', lambda w: (w[k].length, w[k].vlims, w[k].ulims, w[k].lhv, w[k].isfinite))
  add('.inside', lambda w: w[k].inside(xs))
  add('.pscale', lambda w: (complex(w[k].pscale), isinstance(w[k].pscale, complex)))
  return out

# ---------------------------------------------------------------- histories

class World(dict):
  pass

def run(t, history, probes, seed):
  """ Makes the objects, and yields the results of probes. """
  w = World()
  try:
    for h in history: h(w)
  except Exception as e:
    import traceback
    t.fail('declaration', 'declaration raised {}: {} {}'.format(type(e).__name__, e, traceback.format_exc()[-400:]))
  out = []
  for i, (text, do) in enumerate(probes):
    np.random.seed(seed + i); random.seed(seed + i)
    try: out.append(plain(do(w)))
    except Exception as e: out.append(e)
  return out

def quiet(f, *args):
  import warnings
  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    with np.errstate(all='ignore'):
      return f(*args)

def compare(t, full, reduced, probes, log):
  seed = t.int(0, 2**31 - 100)
  for l in log: t.note(l)
  ref = [quiet(run, t, reduced, probes, seed) for _ in range(2)]
  got = quiet(run, t, full, probes, seed)
  n = 0
  for (text, _), a, b, c in zip(probes, got, *ref):
    if isinstance(b, Exception):       # not specified by the declarations made
      continue
    t.events['probe'] += 1
    if isinstance(a, Exception):
      t.fail('raise:' + text.split('(')[0], '{} raised {}: {}'.format(text, type(a).__name__, a))
    if isinstance(c, Exception) or not same(b, c): continue      # not reproducible
    n += 1
    t.check(same(a, b), text.split('(')[0].split('[')[0], '{} gives {} rather than {}'.format(text, a, b))
  if not n: raise Skip()

def reduce(decls):
  """ Leaves out declarations that are superseded. """
  out = []
  for i, d in enumerate(decls):
    if not any((e.target, e.kind) == (d.target, d.kind) for e in decls[i + 1:]): out.append(d)
  return out

def start(k, vt, base, scale=None):
  def do(w):
    s = {float: [.5, 4.5], int: [0, 1, 2, 3], bool: None}[vt]
    w[k] = pb.RV(k, vtype=vt) if vt is bool else pb.RV(k, vtype=vt, vset=s)
    if base: w[k].set_prob(None, **({} if scale is None else {'pscale': scale}))
  return do

def decoy(t, k, vt, state):
  """ Another variable with the same name, declared and used in between. """
  ds = [var_decl(t, k, vt, t.choice(KINDS[vt]), state) for _ in range(t.int(1, 3))]
  ps = var_probes(t, k, vt)
  def do(w):
    z = World(); start(k, vt, True)(z)
    for d in ds:
      try: d.do(z[k])
      except Exception: pass
    for _, p in ps[:5]:
      try: p(z)
      except Exception: pass
  return do

def act(d): return lambda w: d.do(w[d.target])

def use(probe):
  def do(w):
    try: probe[1](w)
    except Exception: pass
  return do

def declarations(t, k, vt, state, n):
  kinds = t.shuffled([d for d in KINDS[vt] if d not in state.get('not', ())])
  kinds = kinds[:t.int(1, len(kinds))]
  if state['ufun'] and vt is float and 'ufun' not in kinds and 'ufun' not in state.get('not', ()): kinds.append('ufun')
  if not state['ufun'] and 'ufun' in kinds: kinds.remove('ufun')
  if not kinds: kinds = ['prob']
  return [var_decl(t, k, vt, t.choice(kinds), state) for _ in range(n)]

def variables(t):
  """ Variables declared over and over. """
  vt = t.choice([float, float, int, bool])
  k = t.choice(['x', 'mu', 'x_1'])
  state = {'ufun': t.chance(.4)}
  decls = declarations(t, k, vt, state, t.int(2, 7))
  keep = reduce(decls)
  if t.chance(.5): keep.sort(key=lambda d: ORDER.index(d.kind))
  probes = var_probes(t, k, vt)
  full = [start(k, vt, True)]; log = []
  for d in decls:
    full.append(act(d)); log.append(repr(d))
    if t.chance(.4): full.append(use(t.choice(probes))); log.append('used')
    if t.chance(.2): full.append(decoy(t, k, vt, state)); log.append('decoy')
  compare(t, full, [start(k, vt, True)] + [act(d) for d in keep], probes, log)
  gone = sorted({d.kind for d in decls if d not in keep})
  t.cover('variables', vt.__name__, state['ufun'], tuple(gone), tuple(sorted(d.kind for d in keep)))
  t.sample('{}'.format(decls))

# ---------------------------------------------------------------- fields

ORDER = ['vset', 'ufun', 'prob', 'tran', 'tfun', 'delta', 'prop', 'mcmc']

def spd(t, n):
  a = np.array([[t.rng.gauss(0., 1.) for _ in range(n)] for _ in range(n)])
  return np.eye(n) * .5 + .3 * a @ a.T

def exactly(names, f, more=set()):
  """ A function that takes these keywords only. """
  def g(**v):
    if set(v) != set(names) | more: raise TypeError('unexpected keywords: {}'.format(sorted(v)))
    return f(v)
  return g

def field_decl(t, target, names, kind, state):
  n = len(names)
  r = [t.choice([.3, 1., 2.5]) for _ in names]
  if kind == 'prob':
    how = t.choice(['none', 'func', 'func', 'dims', 'mvn', 'scalar'])
    sc = t.choice(state['scales']); c = t.choice([.2, .5]); mean = [t.choice([1., 1.5, 2.]) for _ in names]; cov = spd(t, n)
    def do(o):
      kw = {'pscale': sc}
      f = linlog(lambda v: np.exp(-sum(q * v[k] for q, k in zip(r, names))), sc)
      if how == 'none': o.set_prob(None, **({} if len(state['scales']) > 1 else kw))
      elif how == 'scalar': o.set_prob(float(model.stored(math.log(c), gen.norm_scale(sc))), **kw)
      elif how == 'func': o.set_prob(exactly(names, f), **kw)
      elif how == 'dims': o.set_prob(exactly(names, f, {'dims'}), passdims=True, **kw)
      else: o.set_prob(scipy.stats.multivariate_normal, mean, cov, pscale=t_log(sc))
    return Decl(target, kind, 'set_prob({}, {}) {} {}'.format(how, sc, r, mean), do)
  if kind == 'tran':
    how = t.choice(['none', 'cov', 'mvn', 'mvn', 'func', 'tuple'])
    cov = spd(t, n); mean = [t.choice([1., 1.5, 2.]) for _ in names]; steps = t.choice([None, 1]) if not state['uses'] else None
    sc = state['scales'][0]
    def do(o):
      f = linlog(lambda v: np.exp(-sum(q * (v[k] - v[k + "'"])**2 for q, k in zip(r, names))), sc)
      g = linlog(lambda v: np.exp(-sum(q * (v[k] - 2. * v[k + "'"])**2 for q, k in zip(r, names))), sc)
      if how == 'none': o.set_tran(None)
      elif how == 'cov': o.set_tran(cov)
      elif how == 'mvn': o.set_tran(scipy.stats.multivariate_normal, mean, cov, **({'tsteps': steps} if steps else {}))
      elif how == 'func': o.set_tran(lambda **v: f(v))
      else: o.set_tran((lambda **v: f(v), lambda **v: g(v)))
    return Decl(target, kind, 'set_tran({} {}) {}'.format(how, steps, r), do)
  if kind == 'prop':
    how = t.choice(['none', 'func'])
    def do(o):
      f = linlog(lambda v: np.exp(-sum(q * v[k] for q, k in zip(r, names))), state['scales'][0])
      o.set_prop(None if how == 'none' else exactly(names, f))
    return Decl(target, kind, 'set_prop({}) {}'.format(how, r), do)
  if kind == 'delta':
    how = t.choice(['none', 'func', 'Delta'] + ['scalar', 'list', 'tuple', 'dict'] * (state['form'] == 'plain')); d = t.choice([.1, .25])
    kw = {}
    if how != 'func' and t.chance(.5): kw['bound'] = t.chance(.7)
    if how in ('scalar', 'list', 'dict') and t.chance(.5): kw['scale'] = t.chance(.7)
    def do(o):
      if how == 'none': o.set_delta(None)
      elif how == 'scalar': o.set_delta(d, **kw)
      elif how == 'list': o.set_delta([d], **kw)
      elif how == 'tuple': o.set_delta((d,), **kw)
      elif how == 'dict': o.set_delta({k: d * (i + 1) for i, k in enumerate(names)}, **kw)
      elif how == 'Delta': o.set_delta(o.Delta(*[d * (i + 1) for i in range(len(o.Delta._fields))]), **kw)
      else: o.set_delta(lambda: o.Delta(*[d * (i + 1) for i in range(len(o.Delta._fields))]))
    return Decl(target, kind, 'set_delta({} {} {})'.format(how, d, kw), do)
  if kind == 'mcmc':
    how = t.choice(['metropolis', 'hastings', 'gibbs'])
    def do(o): o.set_scores(how)
    return Decl(target, kind, 'set_scores({})'.format(how), do)

def field_probes(t, target, names, cls, tsteps=False):
  out = []
  def add(text, do): out.append((target + text, do))
  one = {k: t.choice([1.25, 1.5, 1.75, 1.9]) for k in names}
  two = {k: t.choice([1.25, 1.5, 1.75, 1.9]) for k in names}
  arr = {k: np.array([1.25, 1.5, 1.9][:t.int(1, 3)]) for k in names}
  mix = {k: (one if t.chance(.5) else arr)[k] for k in names}
  nums = {k: {t.int(2, 4)} for k in names}
  add('({})'.format(one), lambda w: w[target](dict(one)))
  add('({})'.format(mix), lambda w: w[target](dict(mix)))
  add('({})'.format(nums), lambda w: w[target](dict(nums)))
  add('({-3})', lambda w: w[target]({-3}))
  add('({0})', lambda w: w[target]({0}))
  add('.apply_delta({})'.format(one), lambda w: w[target].apply_delta(dict(one)))
  add('.eval_delta()', lambda w: w[target].eval_delta())
  add('.propose({})'.format(one), lambda w: w[target].propose(dict(one)))
  add('.step({}, {})'.format(one, two), lambda w: w[target].step(dict(one), dict(two)))
  add('.step({}, {}, reverse)'.format(one, two), lambda w: w[target].step(dict(one), dict(two), reverse=True))
  add('.step({})'.format(one), lambda w: w[target].step(dict(one)))
  add('.step({}) again'.format(one), lambda w: w[target].step(dict(one)))
  add('.length', lambda w: w[target].eval_length())
  if cls is not pb.RF:
    add('.sample({})'.format(one), lambda w: w[target].sample(dict(one)))
  if cls is pb.SP:
    add('.sampler', lambda w: [z for z in w[target].sampler(dict(one), stop=4)])
    def walk(w):
      z = w[target].walk(w[target].sampler(dict(one), stop=5)); return [w[target](z), len(z)]
    add('.walk', walk)
  return out

def bystander(t, names, state, cls):
  """ Another field of the same variables, or made of the field, declared and used in between. """
  of = t.choice(['vars', 'vars', 'field']) if cls is pb.RF else 'vars'
  kind = t.choice([pb.RF, pb.SD, pb.SP]) if of == 'vars' else t.choice([pb.SD, pb.SP])
  order = t.shuffled(names)
  ds = [field_decl(t, 'g', order, t.choice(['prob', 'tran', 'prop']), dict(state, form='plain')) for _ in range(t.int(0, 3))]
  ps = field_probes(t, 'g', order, kind)
  def do(w):
    try: 
      g = pb.RF(*[w[k] for k in order]) if of == 'vars' else w['f']
      if kind is not pb.RF: g = kind(g)
    except Exception: return
    z = World(g=g)
    for d in ds:
      try: d.do(g)
      except Exception: pass
    for p in ps: use(p)(z)
  return do, 'bystander {} of {} {}'.format(kind.__name__, of, ds)

def joint(t):
  """ Fields, conditional models and processes, and their variables. """
  n = t.int(2, 3)
  names = t.shuffled(['x', 'y', 'z', 'x1'])[:n]
  cls = t.choice([pb.RF, pb.SD, pb.SP])
  fk = t.shuffled(['prob', 'tran', 'delta'] if t.chance(.7) else ['prob', 'prop', 'delta'])[:t.int(1, 3)]
  if cls is pb.SP and 'tran' in fk: fk.append('mcmc')
  # transitions and proposals are read on the scale of probabilities: these are declared alike
  scales = t.choice([[1.], ['log']]) if {'tran', 'prop'} & set(fk) else SCALES
  alike = len(scales) == 1
  state = {k: {'ufun': t.chance(.25), 'scales': scales} for k in names}
  state['scales'] = scales
  state['uses'] = t.chance(.6)            # steps of variables in turn remember whose turn it is
  form = state['form'] = t.choice(['plain', 'plain', 'cond']) if 'tran' not in fk else 'plain'
  if cls is pb.RF: form, state['form'] = t.choice(['plain', 'cond']), 'plain'
  decls = []
  for _ in range(t.int(2, 8)):
    if t.chance(.4): decls.append(('v', t.choice(names)))
    else: decls.append(('f', t.choice(fk)))
  first = min([len(decls)] + [i for i, (g, _) in enumerate(decls) if g == 'f'])
  at = t.int(0, first)                                            # composed before its first declaration
  for i, (g, k) in enumerate(decls):
    if g == 'f': decls[i] = (g, field_decl(t, 'f', names, k, state))
    else:
      # the increments of a field are those of its variables, scaled when declared
      no = ['delta'] if 'delta' in fk else []
      if i > first: no += ['vset', 'ufun', 'delta']
      decls[i] = (g, declarations(t, k, float, dict(state[k], **{'not': no}), 1)[0])
  def compose(w):
    vs = [w[k] for k in names]
    f = pb.RF(*vs)
    if cls is pb.SD and form == 'cond': f = pb.SD(pb.RF(*vs[:-1]), vs[-1])
    elif cls is pb.SP and form == 'cond': f = pb.SP(pb.RF(*vs[:-1]), vs[-1])
    elif cls is not pb.RF: f = cls(f)
    elif form == 'cond':
      f = vs[0] & vs[1]
      for v in vs[2:]: f = f & v
    w['f'] = f
  begin = [start(k, float, True, scales[0] if alike else None) for k in names]
  probes = field_probes(t, 'f', names, cls)
  for k in names: probes += var_probes(t, k, float)[:4]
  full, log = list(begin), []
  for i, (g, d) in enumerate(decls):
    if i == at: full.append(compose); log.append('composed {} {}'.format(cls.__name__, form))
    full.append(act(d)); log.append(repr(d))
    if state['uses'] and t.chance(.5): full.append(use(t.choice(probes))); log.append('used')
    if t.chance(.1): full.append(decoy(t, t.choice(names), float, state[names[0]])); log.append('decoy')
    if i >= at and t.chance(.15):
      do, text = bystander(t, names, state, cls)
      full.append(do); log.append(text)
  if at == len(decls): full.append(compose); log.append('composed {} {}'.format(cls.__name__, form))
  kept = reduce([d for _, d in decls])
  vs, fs = [d for d in kept if d.target != 'f'], [d for d in kept if d.target == 'f']
  if t.chance(.5):
    vs.sort(key=lambda d: ORDER.index(d.kind)); fs.sort(key=lambda d: ORDER.index(d.kind))
  reduced = begin + [act(d) for d in vs] + [compose] + [act(d) for d in fs]
  compare(t, full, reduced, probes, log)
  gone = sorted({(d.target == 'f', d.kind) for _, d in decls if d not in kept})
  t.cover('joint', cls.__name__, n, at < len(decls), tuple(gone), tuple(sorted(d.kind for d in fs)))

# ---------------------------------------------------------------- expressions

FUNCS = {
  'x': lambda x: 2. * x, 'x,y': lambda x, y: x - 2. * y, 'y,x': lambda y, x: 3. * y + x * x, 'x,a=': lambda x, a=1.5: x * a,
  'kw': lambda **k: sorted((n, float(np.sum(v))) for n, v in k.items()), 'none': lambda: 7.}

def plain_fn(x, y=0., b=2.): return x + b * y

def spec(t, cls):
  """ Something to be set with optional arguments. """
  hows = ['scalar', 'array', 'func', 'func', 'func', 'tuple', 'iconic', 'none']
  if cls is pb.Expression: hows += ['dict', 'dict', 'str']
  if cls is pb.Prob: hows += ['norm', 'norm args', 'gamma', 'frozen', 'mvn', 'sympy', 'sympy']
  if cls is Func: hows.remove('iconic')
  how = t.choice(hows)
  args, kw = (), {}
  x, y = sympy.Symbol('x'), sympy.Symbol('y')
  r = t.choice([.5, 1., 2.])
  if how == 'none': f = None
  elif how == 'scalar': f = t.choice([.25, 1., 3])
  elif how == 'array': f = np.array([r, 2.])
  elif how == 'str': f = 'text'
  elif how == 'func':
    n = t.choice(sorted(FUNCS) + ['def', 'def']); f = plain_fn if n == 'def' else FUNCS[n]; how += ' ' + n
    opt = t.choice(['', 'args', 'kwds', 'order', 'delta'])
    if opt == 'args' and n not in ('none', 'kw'): args = (r,)
    elif opt == 'kwds': kw = {'def': {'b': r}, 'x,a=': {'a': r}, 'x,y': {'y': r}, 'y,x': {'x': r}}.get(n, {})
    elif opt == 'order' and n in ('x,y', 'y,x', 'def', 'kw'): kw = {'order': t.choice([{'x': 0, 'y': 1}, {'y': 0, 'x': 1}, {'x': 'y', 'y': 'x'}])}
    elif opt == 'delta' and n in ('x', 'x,a='): kw = {'delta': {'x': 'x', 'y': '-x'}}
  elif how == 'tuple': f = t.choice([(FUNCS['x'], FUNCS['x,a=']), (.5, 2.), (np.exp, np.log)])
  elif how == 'dict': f = t.choice([{'p': FUNCS['x'], 'q': FUNCS['x,y']}, {'p': .5, 'r': 2.}, {'prob': FUNCS['x']}])
  elif how == 'iconic':
    f = t.choice([x + 1, 2 * x, sympy.log(x), x * y, sympy.exp(-x) + y])
    if f.free_symbols == {x} and cls is pb.Expression and t.chance(.5): kw = {'invertible': True}
  elif how == 'norm': f = scipy.stats.norm; kw = t.choice([{}, {'scale': r}, {'loc': r, 'scale': 2.}])
  elif how == 'norm args': f = scipy.stats.norm; args = (r, 1.5)
  elif how == 'gamma': f = scipy.stats.gamma; kw = {'a': r}
  elif how == 'frozen': f = scipy.stats.norm(loc=r)
  elif how == 'mvn': f = scipy.stats.multivariate_normal; args = ([r, 1.], [[2., .5], [.5, 1.]])
  else: f = sympy.stats.Exponential('x', sympy.Integer(t.int(1, 3)))
  if cls is pb.Prob:
    kw = dict(kw, pscale=1. if how not in ('norm', 'norm args', 'gamma', 'frozen', 'mvn', 'sympy') else t.choice([1., 'log']))
  return '{} {} {}'.format(how if how != 'iconic' else f, args, kw), f, args, kw

def expr_probes(t, cls):
  x, y = t.choice([.75, 1.5]), t.choice([.6, 2.5]); a = np.array([x, y])
  out = []
  def add(text, do): out.append((text, lambda w: do(w['e'])))
  add('()', lambda e: e())
  add('(x)', lambda e: e(x))
  add('(x, y)', lambda e: e(x, y))
  add('([x, y])', lambda e: e(a))
  add('(x=)', lambda e: e(x=x))
  add('(x=, y=)', lambda e: e(x=x, y=y))
  add('({x, y})', lambda e: e({'x': x, 'y': y}))
  for k in (0, 1, -1, 'p', 'q', 'r', 'prob', 'logp', 'cdf', 'ppf', 'icdf', 'pdf'):
    add('[{!r}](x)'.format(k), lambda e, k=k: e[k](x))
    add('[{!r}]()'.format(k), lambda e, k=k: e[k]())
    add('[{!r}](x=, y=)'.format(k), lambda e, k=k: e[k](x=x, y=y))
  add('[0]({x})', lambda e: e[0]({'x': x}))
  add('[1]({x})', lambda e: e[1]({'x': x}))
  add('len', lambda e: len(e))
  if cls is Func:
    for k in ('ismulti', 'isscalar', 'callable'): add('.' + k, lambda e, k=k: bool(getattr(e, k)))
  else:
    for k in ('ismulti', 'isscalar', 'callable', 'isiconic', 'invertible'): add('.' + k, lambda e, k=k: bool(getattr(e, k)))
    add('.keys', lambda e: sorted(map(str, e.keys)))
  if cls is pb.Prob:
    for k in ('isscipy', 'issympy', 'issmvar', 'logp'): add('.' + k, lambda e, k=k: bool(getattr(e, k)))
    add('.pscale', lambda e: (complex(e.pscale), isinstance(e.pscale, complex)))
    add('.eval_prob(x)', lambda e: e.eval_prob(x))
    add('.eval_prob({x})', lambda e: e.eval_prob({'x': x}))
    add('.pfun', lambda e: [e.pfun[0](x), e.pfun[1](.3)])
    add('.sfun', lambda e: e.sfun(size=2))
  return out

def expressions(t):
  """ Expressions, functions and probabilities set over and over. """
  cls = t.choice([pb.Expression, Func, pb.Prob])
  n = t.int(2, 4)
  specs = [spec(t, cls) for _ in range(n)]
  probes = expr_probes(t, cls)
  def make(z):
    def do(w): w['e'] = cls(z[1], *z[2], **dict(z[3]))
    return do
  def again(z):
    def do(w):
      e = w['e']
      (e.set_func if cls is Func else e.set_prob if cls is pb.Prob else e.set_expr)(z[1], *z[2], **dict(z[3]))
    return do
  full, log = [], []
  for i, z in enumerate(specs):
    full.append(make(z) if i == 0 else again(z)); log.append('{} {}'.format(cls.__name__, z[0]))
    for _ in range(t.choice([0, 0, 1, 3])): full.append(use(t.choice(probes))); log.append('used')
    if t.chance(.2):
      d = spec(t, cls)
      def decoy(w, d=d):
        z = World(); make(d)(z)
        for p in probes: use(p)(z)
      full.append(decoy); log.append('decoy ' + d[0])
  compare(t, full, [make(specs[-1])], probes, log)
  t.cover('expressions', cls.__name__, [z[0].split(' ')[0] for z in specs[-2:]], bool(specs[-1][2]), bool(specs[-1][3]), bool(specs[-2][2]), bool(specs[-2][3]))

STAGES = {
  'expressions': (expressions, 1600, 60000),
  'variables': (variables, 2000, 60000),
  'joint': (joint, 1300, 30000),
}
