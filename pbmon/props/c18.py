""" C18: expressions and functions receive each argument under its own name. """
import collections
import math
import networkx as nx
import numpy as np
import sympy
import probayes as pb
from probayes.func import Func
from probayes.cf import CF
from pbmon.core import Skip

RULE = ('a case declares recording functions or symbolic expressions with random signatures, constants and remappings, calls them in '
        'random forms and interleavings, and compares what every function received (or every value) with a binding worked out '
        'beforehand; cases count by signature, wrapper, constants, remapping and call form')
ASSUMPTIONS = ['constants and call keywords do not name the same argument', 'positional constants precede the positional values of calls',
               'order and delta mappings are given all the keys they map, in keywords or one dictionary',
               'symbolic expressions are real valued at the values used']
NAMES = ['x', 'y', 'z', 'a', 'b', 'mu', 'sigma', 'k', 'n', 'u', 'x_0', 'xx', 'theta', 'lam']

#------------------------------------------------------------- recording functions
class Recorder:
  """ A function with a signature of choice that returns all it received. """
  def __init__(self, t, tag, islambda, names=None):
    self.tag = tag
    names = t.shuffled(NAMES)[:t.int(0, 4)] if names is None else list(names)
    self.pos = names
    ndef = t.int(0, len(names)) if t.chance(.4) else 0
    self.defaults = {n: 'default_' + n for n in names[len(names) - ndef:]} if ndef else {}
    rest = [n for n in NAMES if n not in names]
    self.kwonly = t.shuffled(rest)[:t.int(1, 2)] if t.chance(.3) else []
    self.varkw = t.chance(.25); self.varpos = bool(t.chance(.2) and not ndef)
    sig = [n + ("='default_{}'".format(n) if n in self.defaults else '') for n in self.pos]
    if self.varpos: sig.append('*extra')
    elif self.kwonly: sig.append('*')
    sig += self.kwonly
    if self.varkw: sig.append('**more')
    self.sig = ', '.join(sig)
    keep = ', '.join("'{0}': {0}".format(n) for n in self.pos + self.kwonly)
    body = "(tag, {{{}}}, {}, {})".format(keep, 'tuple(extra)' if self.varpos else '()', 'dict(more)' if self.varkw else '{}')
    env = {'tag': tag}
    if islambda: self.func = eval('lambda {}: {}'.format(self.sig, body), env)
    else:
      exec('def f({}): return {}'.format(self.sig, body), env); self.func = env['f']
      if t.chance(.15):
        f = self.func
        class Obj:
          def __call__(s, *args, **kwds): return f(*args, **kwds)
        self.func = Obj()
  def bind(self, args, kwds):
    """ What is received. """
    got = dict(self.defaults); got.update(zip(self.pos, args))
    more = {}
    for k, v in kwds.items():
      if k in self.pos or k in self.kwonly: got[k] = v
      else: more[k] = v
    return (self.tag, got, tuple(args[len(self.pos):]), more)

def value(t):
  kind = t.choice(['int', 'float', 'str', 'array', 'none', 'tuple', 'set'])
  if kind == 'int': return t.int(-99, 99)
  if kind == 'float': return t.rng.uniform(-5, 5)
  if kind == 'str': return 'v{}'.format(t.int(0, 99))
  if kind == 'array': return np.arange(t.int(0, 3)) + t.int(0, 9)
  if kind == 'none': return None
  if kind == 'set': return {t.int(0, 9)}
  return (t.int(0, 9), 'w')

def same(a, b):
  """ Equal content, arrays included. """
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and bool(np.all(a == b))
  if isinstance(a, dict) and isinstance(b, dict): return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
  if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  return type(a) is type(b) and a == b

def split(t, rec, nconst):
  """ Divides the arguments of a call: positional constants, keyword constants,
  positional values, keyword values. """
  need = [n for n in rec.pos]
  npos = t.int(0, len(need)) if not t.chance(.35) else 0
  cpos = min(npos, nconst)
  posvals = [value(t) for _ in range(npos)]
  if rec.varpos and npos == len(need) and npos > cpos:
    posvals += [value(t) for _ in range(t.int(0, 2))]
  kw = {}
  for n in need[npos:]:
    if n in rec.defaults and t.chance(.5): continue
    kw[n] = value(t)
  for n in rec.kwonly: kw[n] = value(t)
  if rec.varkw:
    for n in t.shuffled([n for n in NAMES + ['other'] if n not in rec.pos + rec.kwonly])[:t.int(0, 2)]: kw[n] = value(t)
  return posvals, kw, cpos

def make(t, wrapper, func, cargs, ckwds, **maps):
  if wrapper == 'Func': return t.call('Func', Func, func, *cargs, **dict(ckwds, **maps))
  if wrapper == 'CF': return t.call('CF', CF, pb.RV('p', vtype=float) & pb.RV('q', vtype=float), None, func, *cargs, **dict(ckwds, **maps))
  return t.call('Expression', pb.Expression, func, *cargs, **dict(ckwds, **maps))

def deliver(t, label, handle, args, kw):
  """ Calls in one of the forms accepted. """
  kw = {k: kw[k] for k in t.shuffled(list(kw))}
  if not args and t.chance(.4):
    keys = t.shuffled(list(kw)); cut = t.int(0, len(keys))
    d = {k: kw[k] for k in keys[:cut]}; rest = {k: kw[k] for k in keys[cut:]}
    before = dict(d)
    if t.chance(.5): d = collections.OrderedDict(d)
    got = t.call(label + ' dict', handle, d, **rest)
    t.check(same(dict(d), before), 'arguments', 'the dictionary passed was changed from {} to {}'.format(before, d))
    return 'dict', got
  return ('mixed' if args and kw else 'keywords' if kw else 'positional'), t.call(label, handle, *args, **kw)

def functions(t):
  """ Single and multiple recording functions, members called in any order. """
  wrapper = t.choice(['Expression', 'Expression', 'Func', 'CF'])
  multi = t.choice(['single', 'tuple', 'dict' if wrapper == 'Expression' else 'tuple', 'tuple'])
  islambda = t.chance(.5)
  n = 1 if multi == 'single' else t.int(1, 4)
  names = t.shuffled(NAMES)[:t.int(0, 4)]
  recs = [Recorder(t, 'f{}'.format(i), islambda) for i in range(n)]
  nconst = 0; ckw = {}
  const = t.chance(.4) and n == 1
  first = recs[0]
  if const:
    posvals, kw, nconst = split(t, first, t.int(0, 2))
    cargs = tuple(posvals[:nconst])
    if len(cargs) == 1 and isinstance(cargs[0], dict): cargs = ()
    cand = [k for k in kw if k in first.kwonly or k in first.pos[nconst:]]
    for k in cand:
      if t.chance(.4): ckw[k] = kw[k]
  else: cargs = ()
  func = first.func if multi == 'single' else tuple(r.func for r in recs) if multi == 'tuple' else \
         collections.OrderedDict(('k{}'.format(i), r.func) for i, r in enumerate(recs))
  t.note('{} {} of {} constants {} {}'.format(wrapper, multi, [r.sig for r in recs], cargs, ckw))
  e = make(t, wrapper, func, cargs, ckw)
  # Members are fetched and called in any order, more than once
  keys = [None] if multi == 'single' else [('k{}'.format(i) if multi == 'dict' else i) for i in range(n)]
  def fetch(i):
    if multi == 'single': return e if not (wrapper == 'Expression' and t.chance(.3)) else e[None]
    if multi == 'tuple' and i == n - 1 and t.chance(.3): return t.call('member', e.__getitem__, -1)
    return t.call('member', e.__getitem__, keys[i])
  if multi != 'single' and wrapper != 'CF': t.check(len(e) == n, 'count', '{} functions counted as {}'.format(n, len(e)))
  handles = []
  for _ in range(t.int(1, 4)):
    i = t.int(0, n - 1); handles.append((i, fetch(i)))
  forms = set()
  for i, h in t.shuffled(handles + handles[:1]):
    r = recs[i]
    posvals, kw, _ = split(t, r, 0)
    if const:
      if any(k in kw for k in ckw): kw = {k: v for k, v in kw.items() if k not in ckw}
      used = min(len(cargs), len(r.pos))
      posvals = posvals[used:] if len(posvals) >= used else []
      bound = set(r.pos[:used + len(posvals)])
      if any(k in ckw for k in bound):   # constants already name these: pass by keyword instead
        posvals = []; bound = set(r.pos[:used])
      kw = {k: v for k, v in kw.items() if k not in bound}
      for k in r.pos:
        if k not in bound and k not in kw and k not in ckw and k not in r.defaults: kw[k] = value(t)
    if len(posvals) == 1 and isinstance(posvals[0], dict): continue
    if islambda and not r.sig and (posvals or kw): continue
    form, got = deliver(t, '{}{}'.format(wrapper, '' if keys[i] is None else '[{!r}]'.format(keys[i])), h, posvals, kw)
    want = r.bind(list(cargs) + list(posvals), {**ckw, **kw})
    t.check(same(got, want), 'binding', '{}[{}] ({}) received {} instead of {}'.format(wrapper, keys[i], r.sig, got, want))
    forms.add(form)
  t.cover('functions', wrapper, multi, n, len(cargs), len(ckw), islambda, tuple(sorted(forms)), len(handles), [r.sig.count(',') for r in recs],
          [(bool(r.defaults), bool(r.kwonly), r.varkw, r.varpos) for r in recs])

def members(t):
  """ Prob members 'prob'/'logp' etc. aside, non-callables are returned as they are. """
  wrapper = t.choice(['Expression', 'Func'])
  multi = t.choice(['single', 'tuple', 'dict' if wrapper == 'Expression' else 'single'])
  kind = t.choice(['scalar', 'array', 'str'])
  def one():
    return t.rng.uniform(-2, 2) if kind == 'scalar' else t.np.normal(size=t.int(1, 3)) if kind == 'array' else 's{}'.format(t.int(0, 99))
  vals = [one() for _ in range(1 if multi == 'single' else t.int(1, 4))]
  obj = vals[0] if multi == 'single' else tuple(vals) if multi == 'tuple' else {'k{}'.format(i): v for i, v in enumerate(vals)}
  e = make(t, wrapper, obj, (), {})
  hs = [(i, e if multi == 'single' else t.call('member', e.__getitem__, i if multi == 'tuple' else 'k{}'.format(i))) for i in range(len(vals))]
  for i, h in t.shuffled(hs + hs):
    got = t.call(wrapper + ' constant', h)
    t.check(same(got, vals[i]), 'constant', 'member {} is {} instead of {}'.format(i, got, vals[i]))
  t.rejects(wrapper + ' constant with an argument', hs[0][1], 1.)
  t.rejects(wrapper + ' constant with a keyword', hs[0][1], x=1.)
  t.rejects(wrapper + ' of callable and uncallable', make, t, wrapper, (lambda x: x, 2.), (), {})
  if wrapper == 'Expression': t.check(e.callable is False or not e.callable, 'flags', 'constant is callable')
  t.cover('constants', wrapper, multi, kind, len(vals))

def mapping(t):
  """ Remapped keywords: to positions, other names, or dropped; and differences. """
  wrapper = t.choice(['Expression', 'Func', 'CF'])
  kind = t.choice(['order', 'delta'])
  islambda = t.chance(.5)
  keys = t.shuffled(NAMES)[:t.int(1, 5)]
  targets = t.shuffled(NAMES)     # may coincide with other keys
  npos = t.int(0, len(keys))
  posn = list(range(npos)); posn = t.shuffled(posn)
  how = {}
  diff = {}
  rest = [n for n in targets]
  for j, k in enumerate(keys):
    key = k
    if kind == 'delta' and t.chance(.5): key = k + "'"; diff[key] = k
    if j < npos: how[key] = posn[j]
    elif t.chance(.25): how[key] = None
    else: how[key] = rest.pop()
  strs = [v for v in how.values() if isinstance(v, str)]
  posnames = ['p{}'.format(i) for i in range(npos)]
  # Unmapped keywords pass through under their own name
  sources = set(keys)
  loose = [n for n in NAMES + ['other'] if n not in sources and n not in strs]
  loose = t.shuffled(loose)[:t.int(0, 2)]
  r = Recorder(t, 'f', islambda, names=posnames)
  r.defaults = {}; r.kwonly = t.shuffled(strs + loose); r.varkw = r.varpos = False
  sig = posnames + (['*'] + r.kwonly if r.kwonly else [])
  env = {}
  body = "('f', {{{}}}, (), {{}})".format(', '.join("'{0}': {0}".format(n) for n in posnames + r.kwonly))
  src = ', '.join(sig)
  if islambda: r.func = eval('lambda {}: {}'.format(src, body))
  else: exec('def f({}): return {}'.format(src, body), env); r.func = env['f']
  multi = t.choice(['single', 'single', 'tuple'])
  ckw = {}
  vals = {}
  for key in how:
    if key in diff: vals[key] = t.int(-50, 50) + .5; vals[diff[key]] = t.choice([t.int(-50, 50), np.arange(2) * 1.5])
    else: vals[key] = value(t)
  for n in loose: vals[n] = value(t)
  for n in loose:
    if t.chance(.3): ckw[n] = vals.pop(n)
  t.note('{} {} {}={} of ({}) constants {}'.format(wrapper, multi, kind, how, src, ckw))
  given = dict(how)
  func = r.func if multi == 'single' else (r.func, r.func)
  if t.chance(.3) and multi == 'single' and wrapper != 'CF':
    e = make(t, wrapper, func, (), ckw); t.call('set_' + kind, getattr(e, 'set_' + kind), how)
  else: e = make(t, wrapper, func, (), ckw, **{kind: how})
  h = e if multi == 'single' else e[t.int(0, 1)]
  want = {}
  for key, to in how.items():
    v = vals[key] - vals[diff[key]] if key in diff else vals[key]
    if to is None: continue
    want['p{}'.format(to) if isinstance(to, int) else to] = v
  for n in loose: want[n] = {**vals, **ckw}[n]
  for _ in range(2):
    src_kw = {k: vals[k] for k in t.shuffled(list(vals))}
    if any(not k.isidentifier() for k in src_kw) or t.chance(.5): got = t.call(wrapper + ' mapped dict', h, src_kw)
    else: got = t.call(wrapper + ' mapped', h, **src_kw)
    t.check(same(got, ('f', want, (), {})), 'mapping', '{} {}={}: received {} instead of {}'.format(wrapper, kind, how, got, want))
    if multi == 'tuple': h = e[t.int(0, 1)]
  t.check(how == given, 'arguments', 'the mapping passed was changed from {} to {}'.format(given, how))
  t.cover('mapping', wrapper, kind, islambda, multi, npos, len(keys), len(diff), sum(v is None for v in how.values()), len(ckw),
          any(v in sources for v in strs))

def conditional(t):
  """ Conditional functions are told which variable is unknown. """
  names = t.shuffled(['x', 'y', 'z'])[:t.int(2, 3)]
  inp = collections.OrderedDict((n, ','.join(t.shuffled([m for m in names if m != n]))) for n in t.shuffled(names))
  rvs = [pb.RV(n, vtype=float, vset=(0., 1.)) for n in names]
  rf = t.call('RF', pb.RF, *rvs)
  seen = []
  def f(unknown=None, **kwds): return (unknown, kwds)
  cf = t.call('CF', CF, rf, inp, f)
  hs = []
  for _ in range(t.int(1, 4)):
    k = t.choice(names); hs.append((k, t.call('CF member', cf.__getitem__, k)))
  for k, h in t.shuffled(hs):
    vals = {n: t.int(0, 99) for n in t.shuffled(names)}
    got = t.call('CF unknown', h, vals) if t.chance(.5) else t.call('CF unknown', h, **vals)
    t.check(same(got, (k, vals)), 'binding', 'conditional of {} received {} instead of {}'.format(k, got, vals))
  t.cover('conditional', len(names), len(hs), len({k for k, _ in hs}))

def functional(t):
  """ Functionals pass their functions the inputs each one depends upon. """
  n_in, n_out = t.int(1, 4), t.int(1, 3)
  ins = t.shuffled(['x', 'y', 'z', 'w', 'v'])[:n_in]; outs = t.shuffled(['a', 'b', 'c', 'd'])[:n_out]
  objs = t.chance(.5)
  def graph(names):
    if objs and len(names) > 1: 
      vs = [pb.Variable(n, vtype=float) for n in names]; g = vs[0] & vs[1]
      for v in vs[2:]: g = g & v
      return g, {v.name: v for v in vs}
    vs = [sympy.Symbol(n) for n in names]; g = nx.Graph()
    for v in vs: g.add_node(v)
    return g, dict(zip(names, vs))
  gi, vi = graph(ins); go, vo = graph(outs)
  fn = t.call('Functional', pb.Functional, go, gi)
  iconic = t.chance(.4)
  deps = {}
  for o in t.shuffled(outs):
    dep = t.shuffled(ins)[:t.int(1, n_in)]
    if iconic:
      coef = {d: t.int(1, 9) for d in dep}
      sym = {d: (vi[d] if isinstance(vi[d], sympy.Symbol) else vi[d][:]) for d in dep}
      ex = sum(c * sym[d]**(j + 1) for j, (d, c) in enumerate(coef.items()))
      t.call('add_func', fn.add_func, vo[o] if t.chance(.5) else o, ex)
      deps[o] = (dep, coef)
    else:
      env = {}
      exec('def f({}): return ({!r}, {{{}}})'.format(', '.join(dep), o, ', '.join("'{0}': {0}".format(d) for d in dep)), env)
      key = o if t.chance(.6) else vo[o]
      val = ','.join(dep) if t.chance(.4) else tuple(dep) if t.chance(.5) else tuple(vi[d] for d in dep)
      if isinstance(val, tuple) and len(val) == 1: val = val[0]
      t.call('add_func', fn.add_func, {key: val}, env['f'])
      deps[o] = (dep, None)
  t.check(len(fn) == n_out and bool(fn) and fn.ndeps == n_out, 'count', '{} functions counted as {}'.format(n_out, len(fn)))
  t.check(bool(t.call('isiconic', lambda: fn.isiconic)) == iconic, 'flags', 'iconic flag')
  handles = [(o, t.call('member', fn.__getitem__, o if t.chance(.5) else vo[o])) for o in t.shuffled(outs)]
  for o, h in t.shuffled(handles):
    dep, coef = deps[o]
    vals = {i: t.int(1, 9) + .25 for i in t.shuffled(ins)}
    form = t.choice(['all', 'all dict', 'own'] + (['positional'] if len(dep) == 1 else []))
    give = vals if form.startswith('all') else {d: vals[d] for d in t.shuffled(dep)}
    if form == 'positional': got = t.call('Functional positional', h, vals[dep[0]])
    elif form == 'all dict': got = t.call('Functional dict', h, dict(give))
    else: got = t.call('Functional ' + form, h, **give)
    if iconic: t.close(got, sum(c * vals[d]**(j + 1) for j, (d, c) in enumerate(coef.items())), 'functional', 'output {} of {}'.format(o, vals))
    else: t.check(same(got, (o, {d: vals[d] for d in dep})), 'functional', 'output {} received {} of {}'.format(o, got, vals))
    t.cover('functional', iconic, objs, n_in, n_out, len(dep), form)

#------------------------------------------------------------- symbolic expressions
class Node:
  """ An expression evaluated by numpy and built in sympy. """
  def __init__(self, fn, sym): self.fn, self.sym = fn, sym

def leaf(t, syms):
  if t.chance(.75):
    n = t.choice(list(syms)); return Node(lambda v, n=n: v[n], syms[n])
  c = t.choice([1, 2, 3, 5, .5, 1.5, -1, -2])
  if t.chance(.1): return Node(lambda v: math.pi, sympy.pi)
  return Node(lambda v, c=c: c, sympy.Integer(c) if isinstance(c, int) else sympy.Float(c))

def tree(t, syms, depth):
  if depth <= 0 or t.chance(.1): return leaf(t, syms)
  op = t.choice(['+', '-', '*', '/', 'pow', 'exp', 'log', 'sqrt', 'sin', 'tanh', 'abs', 'max', 'piece', 'erf'])
  a = tree(t, syms, depth - 1)
  if op == 'exp': return Node(lambda v: np.exp(np.tanh(a.fn(v))), sympy.exp(sympy.tanh(a.sym)))
  if op == 'log': return Node(lambda v: np.log(2. + np.abs(a.fn(v))), sympy.log(2 + sympy.Abs(a.sym)))
  if op == 'sqrt': return Node(lambda v: np.sqrt(1. + a.fn(v)**2), sympy.sqrt(1 + a.sym**2))
  if op == 'sin': return Node(lambda v: np.sin(a.fn(v)), sympy.sin(a.sym))
  if op == 'tanh': return Node(lambda v: np.tanh(a.fn(v)), sympy.tanh(a.sym))
  if op == 'abs': return Node(lambda v: np.abs(a.fn(v)), sympy.Abs(a.sym))
  if op == 'pow': return Node(lambda v: a.fn(v)**2, a.sym**2)
  if op == 'erf':
    from scipy.special import erf
    return Node(lambda v: erf(a.fn(v)), sympy.erf(a.sym))
  b = tree(t, syms, depth - 1)
  if op == '+': return Node(lambda v: a.fn(v) + b.fn(v), a.sym + b.sym)
  if op == '-': return Node(lambda v: a.fn(v) - b.fn(v), a.sym - b.sym)
  if op == '*': return Node(lambda v: a.fn(v) * b.fn(v), a.sym * b.sym)
  if op == '/': return Node(lambda v: a.fn(v) / (1. + b.fn(v)**2), a.sym / (1 + b.sym**2))
  if op == 'max': return Node(lambda v: np.maximum(a.fn(v), b.fn(v)), sympy.Max(a.sym, b.sym))
  return Node(lambda v: np.where(a.fn(v) > .137, b.fn(v), a.fn(v)), sympy.Piecewise((b.sym, a.sym > .137), (a.sym, True)))

SYMS = ['x', 'y', 'z', 'beta', 'S', 'N', 'gamma', 'x1', 'x10', 'Q', 'zeta', 'k', 'lam', 'x_y', 'O', 'C']
class Holder:
  def __init__(self, name): self.name = name

def build(t, number):
  names = t.shuffled(SYMS)[:number]
  assume = t.choice([{}, {}, {'real': True}, {'positive': True}])
  syms = {n: sympy.Symbol(n, **assume) for n in names}
  for _ in range(40):
    node = tree(t, syms, t.int(1, 3))
    special = t.chance(.15)
    if special:
      from scipy.special import j0
      node = (lambda a: Node(lambda v: j0(v[names[0]]) + a.fn(v), sympy.besselj(0, syms[names[0]]) + a.sym))(node)
    if isinstance(node.sym, sympy.Expr) and {s.name for s in node.sym.free_symbols} == set(names): return names, syms, node, assume, special
  raise Skip('no expression')

def pick(t, assume): return t.rng.uniform(.2, 2.) if assume.get('positive') else t.rng.uniform(-2., 2.)

def iconics(t):
  """ Symbolic expressions of several symbols in every call form. """
  names, syms, node, assume, special = build(t, t.choice([1, 2, 2, 3, 3, 4]))
  wrapper = t.choice(['Expr', 'Expression', 'Expression', 'Expression tuple', 'Expression dict'])
  t.note('{} {} {}'.format(wrapper, node.sym, assume))
  other = None
  if wrapper == 'Expr': e = t.call('Expr', pb.Expr, node.sym)
  elif wrapper == 'Expression': e = t.call('Expression iconic', pb.Expression, node.sym)
  else:
    n2, s2, other, a2, _ = build(t, 1)
    if t.chance(.5): pair, k0, k1 = (node, other), 0, 1
    else: pair, k0, k1 = (other, node), 1, 0
    if wrapper.endswith('dict'): k0, k1 = 'key{}'.format(k0), 'key{}'.format(k1)
    obj = tuple(p.sym for p in pair) if wrapper.endswith('tuple') else {'key0': pair[0].sym, 'key1': pair[1].sym}
    e2 = t.call(wrapper, pb.Expression, obj)
    t.check(len(e2) == 2, 'count', '2 expressions counted as {}'.format(len(e2)))
    hs = {k: t.call('member', e2.__getitem__, k) for k in t.shuffled([k0, k1])}
    if wrapper.endswith('tuple') and k0 == 1 and t.chance(.5): hs[k0] = t.call('member -1', e2.__getitem__, -1)
    e = hs[k0]
    v = pick(t, a2)
    t.close(t.call('member', hs[k1], {n2[0]: v}), other.fn({n2[0]: v}), 'value', '{} at {}'.format(other.sym, v), atol=1e-9)
  order = list((e if wrapper == 'Expr' else e2._exprs[k0] if False else e).symbols) if wrapper in ('Expr', 'Expression') else None
  if order is not None: t.check(set(order) == set(names) and len(order) == len(names), 'symbols', '{} instead of {}'.format(order, names))
  for _ in range(t.int(2, 5)):
    kind = t.choice(['scalar', 'scalar', 'array', 'array', 'grid', 'mixed', 'bool'])
    vals = {}
    for j, n in enumerate(names):
      if kind == 'bool': vals[n] = t.choice([True, np.bool_(True), 1]) if assume.get('positive') else t.choice([True, False, np.bool_(True), 2])
      elif kind == 'scalar' or (kind == 'mixed' and (j or len(names) == 1)):
        v = pick(t, assume); q = t.choice(['float', 'int', 'np', 'npint'])
        vals[n] = v if q == 'float' else np.float64(v) if q == 'np' else t.int(1, 3) if q == 'int' else np.int64(t.int(1, 3))
      elif kind == 'grid':
        shape = [1] * len(names); shape[j] = t.int(1, 3); vals[n] = np.array([pick(t, assume) for _ in range(int(np.prod(shape)))]).reshape(shape)
      else:
        vals[n] = np.array([pick(t, assume) for _ in range(3)])
        if t.chance(.2): vals[n] = np.array([1, 2, 3])
    if special and kind == 'bool': continue
    want = np.asarray(node.fn({n: (np.asarray(v, dtype=float) if isinstance(v, np.ndarray) else float(v)) for n, v in vals.items()}), dtype=float)
    want = np.broadcast_to(want, np.broadcast(*[np.asarray(v) for v in vals.values()]).shape if len(vals) > 1 else np.shape(list(vals.values())[0]))
    before = {n: (v.copy() if isinstance(v, np.ndarray) else v) for n, v in vals.items()}
    forms = ['keywords', 'dict', 'objects', 'split', 'holders']
    if order is not None: forms.append('positional')
    form = t.choice(forms); ks = t.shuffled(names)
    if form == 'keywords': args, kw = (), {n: vals[n] for n in ks}
    elif form == 'dict': args, kw = ({n: vals[n] for n in ks},), {}
    elif form == 'objects': args, kw = ({syms[n]: vals[n] for n in ks},), {}
    elif form == 'holders': args, kw = ({(Holder(n) if t.chance(.5) else n): vals[n] for n in ks},), {}
    elif form == 'split':
      cut = t.int(0, len(ks)); args, kw = ({n: vals[n] for n in ks[:cut]},), {n: vals[n] for n in ks[cut:]}
      if not kw and len(names) == 1 and t.chance(.5): args = args + ({},)
    else: args, kw = tuple(vals[n] for n in order), {}
    shown = [dict(a) if isinstance(a, dict) else a for a in args]
    got = t.call('{} {} {}'.format(wrapper, form, kind), e, *args, **kw)
    t.check(not isinstance(got, sympy.Basic), 'value', '{} at {} remains {}'.format(node.sym, vals, got))
    g = np.asarray(got, dtype=float)
    t.check(g.shape == want.shape, 'shape', '{} of values of {}'.format(g.shape, kind), values=vals)
    # A piecewise jump or rounding aside, values are exact
    ok = np.abs(g - want) <= 1e-8 * (1. + np.abs(want))
    t.check(bool(np.all(ok)), 'value', '{} at {} is {} instead of {}'.format(node.sym, vals, got, want))
    t.check(all(same(vals[n], before[n]) for n in names), 'arguments', 'values passed were changed from {} to {}'.format(before, vals))
    for a, b in zip(args, shown):
      if isinstance(a, dict): t.check(len(a) == len(b) and all(a[k] is b[k] for k in b), 'arguments', 'the dictionary passed was changed from {} to {}'.format(b, a))
    t.cover('iconic', wrapper, kind, form, len(names), tuple(assume), special)

def remapped(t):
  """ Symbols may be renamed for calls. """
  names, syms, node, assume, special = build(t, t.choice([1, 2, 3]))
  new = {'q_{}'.format(j): n for j, n in enumerate(names) if t.chance(.7)}
  e = t.call('Expr remap', pb.Expr, node.sym, remap=dict(new))
  back = {v: k for k, v in new.items()}
  for _ in range(2):
    vals = {n: pick(t, assume) for n in t.shuffled(names)}
    got = t.call('Expr remapped', e, {back.get(n, n): v for n, v in vals.items()})
    want = float(node.fn(vals))
    t.close(got, want, 'remap', '{} of {} at {}'.format(node.sym, new, vals), rtol=1e-8, atol=1e-8)
  t.cover('remap', len(names), len(new))

INVERT = {
  'exp': (lambda x: sympy.exp(x), np.exp, (-3., 3.)), 'log': (lambda x: sympy.log(x), np.log, (.1, 9.)),
  'affine': (lambda x: 2 * x + 3, lambda x: 2 * x + 3, (-5., 5.)), 'neg': (lambda x: 1 - x / 2, lambda x: 1. - x / 2., (-5., 5.)),
  'recip': (lambda x: 1 / x, lambda x: 1. / x, (.1, 9.)), 'sqrt': (lambda x: sympy.sqrt(x), np.sqrt, (.1, 9.)),
  'square': (lambda x: x**2, lambda x: x**2, (.1, 3.)), 'logit': (lambda x: sympy.log(x / (1 - x)), lambda x: np.log(x / (1 - x)), (.05, .95)),
  'logistic': (lambda x: 1 / (1 + sympy.exp(-x)), lambda x: 1 / (1 + np.exp(-x)), (-3., 3.)),
  'loglin': (lambda x: 3 * sympy.log(x) - 1, lambda x: 3. * np.log(x) - 1., (.1, 9.)), 'expm': (lambda x: sympy.exp(2 * x) + 1, lambda x: np.exp(2. * x) + 1., (-2., 1.)),
}
def invertible(t):
  """ Inverses undo the functions they invert. """
  name = t.choice(sorted(INVERT)); mk, fn, (lo, hi) = INVERT[name]
  sname = t.choice(SYMS); assume = t.choice([{}, {}, {'positive': True} if lo > 0 else {'real': True}])
  x = sympy.Symbol(sname, **assume)
  e = t.call('Expression invertible', pb.Expression, mk(x), invertible=True)
  n = t.choice([0, 0, 3])
  f0 = t.call('member', e.__getitem__, t.choice([0, None])); f1 = t.call('member', e.__getitem__, t.choice([1, -1]))
  for _ in range(3):
    v = t.np.uniform(lo, hi, size=n) if n else t.rng.uniform(lo, hi)
    fwd = t.call('forward', f0, v) if t.chance(.5) else t.call('forward', f0, {sname: v})
    t.close(fwd, fn(v), 'value', '{} at {}'.format(mk(x), v), rtol=1e-8, atol=1e-9)
    back = t.call('inverse', f1, fwd)
    t.close(back, v, 'inverse', 'inverse of {} at {}'.format(mk(x), v), rtol=1e-7, atol=1e-7)
    again = t.call('forward', f0, back)
    t.close(again, fwd, 'inverse', '{} of its inverse at {}'.format(mk(x), v), rtol=1e-7, atol=1e-7)
    h = 1e-5
    der = t.call('derivative', e.derinv, v) if len(e.derinv.symbols) else t.call('derivative', e.derinv)
    want = (fn(np.asarray(v) + h) - fn(np.asarray(v) - h)) / (2. * h)
    g = np.broadcast_to(np.asarray(der, dtype=float), np.shape(want))
    t.check(bool(np.all(np.abs(g - want) <= 1e-4 * (1. + np.abs(want)))), 'derivative', '{} at {}: {} instead of {}'.format(mk(x), v, der, want))
  t.check(e.invertible is True, 'flags', 'not marked invertible')
  t.cover('invertible', name, tuple(assume), n)

STAGES = {
  'functions': (functions, 6000, 80000),
  'constants': (members, 800, 6000),
  'mapping': (mapping, 3000, 50000),
  'conditional': (conditional, 400, 4000),
  'functional': (functional, 96, 1500),
  'iconics': (iconics, 80, 1500),
  'remap': (remapped, 24, 300),
  'invertible': (invertible, 32, 400),
}
