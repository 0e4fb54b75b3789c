""" C13: joint evaluations are the product of their parts at every point. """
import math
import numpy as np
import scipy.stats
import probayes as pb
from pbmon import gen, model, zoo
from pbmon.core import Skip

RULE = ('a case composes random variables into a field or dependence, evaluates it on a mixture of scalar, array, shared and '
        'defaulted arguments and compares every entry with the laws declared; cases count by composition, law kinds, scales '
        'and kinds of argument')
ASSUMPTIONS = ['functions given as probabilities return numbers on the declared scale',
               'tables are evaluated over the whole sets they were declared for']

NAMES = ['x', 'y', 'z', 'w', 'mu', 'x2', 'xy', 'm']

def py(x):
  return x.item() if hasattr(x, 'item') else x

def one(t, r, outside=.2):
  x = r.pick(t, not t.chance(outside))
  return r.pick(t) if x is None else x

def values(t, r, n, outside=.2):
  kind = {'bool': bool, 'int': int, 'float': float}[r.kind]
  return np.array([one(t, r, outside) for _ in range(n)], dtype=kind)

def samplable(w, r):
  if w is None: return r.kind != 'float' or r.finite
  if w.kind == 'scipy':
    if r.kind != 'float': return False
    if math.isfinite(r.lo) or math.isfinite(r.hi):
      a, b = w.dist.cdf([r.lo, r.hi], **w.dkw)
      return b - a > 1e-4 and b < 1. - 1e-9 and a > 1e-9
    return True
  return r.kind != 'float' or r.finite

def request(t, names, refs, laws, full=False, given=(), shares=True, outside=.2):
  """ Arguments: (call arguments, {name: kind}, {name: values or None}, groups sharing an axis). """
  args, kinds, vals, groups = {}, {}, {}, []
  rest = list(names)
  if shares and not full and len(names) > 1 and t.chance(.25):
    group = t.rng.sample(names, t.int(2, min(3, len(names))))
    key = ','.join(group)
    if all(samplable(laws[k], refs[k]) for k in group) and t.chance(.4):
      n = t.int(1, 5)
      n = -n if t.chance(.6) else n
      args[key] = {n}
      for k in group: kinds[k], vals[k] = 'shared-set', None
    else:
      n = t.int(2, 5)
      args[key] = [values(t, refs[k], n, outside) for k in group]
      for k, v in zip(group, args[key]): kinds[k], vals[k] = 'shared', v
    groups.append(group)
    rest = [k for k in names if k not in group]
  for k in rest:
    r, ok = refs[k], samplable(laws[k], refs[k])
    opts = ['scalar', 'scalar', 'array', 'array', 'array']
    if ok and k not in given: opts += ['absent', 'none', 'grid', 'random', 'zero']
    kind = 'absent' if full else t.choice(opts)
    kinds[k], vals[k] = kind, None
    if kind == 'scalar':
      vals[k] = args[k] = t.choice([one(t, r, outside), np.asarray(one(t, r, outside))[()]])
    elif kind == 'array':
      vals[k] = args[k] = values(t, r, t.int(1, 4), outside)
    elif kind == 'none': args[k] = None
    elif kind == 'grid': args[k] = {t.int(1, 5)}
    elif kind == 'random': args[k] = {-t.int(1, 5)}
    elif kind == 'zero': args[k] = {0}
  # keys in any order
  order = t.shuffled(list(args))
  return {k: args[k] for k in order}, kinds, vals, groups

def ask(t, field, args, rvs=None, **kwds):
  """ Calls the field with the arguments, spelt in one of the supported ways. """
  plain = all(',' not in k for k in args)
  how = t.choice(['dict', 'dict', 'kwds', 'rvs'])
  t.note('request {}'.format(args))
  if how == 'kwds' and plain and args:
    return t.call('call(kwds)', field, **args, **kwds)
  if how == 'rvs' and plain and rvs:
    return t.call('call(rvs)', field, {rvs[k]: v for k, v in args.items()}, **kwds)
  if not args:
    return t.call('call()', field, *([{}] if t.chance(.3) else []), **kwds)
  return t.call('call(dict)', field, args, **kwds)

def placed(t, d, names, refs, kinds, vals, groups, kind):
  """ Values supplied appear under their own name, each on its own axis. """
  model.layout_ok(t, d, kind)
  t.check(set(d.keys()) == set(names), kind + ':keys', '{} for {}'.format(list(d.keys()), names))
  sharing = {k: i for i, g in enumerate(groups) for k in g}
  axes = {}
  for k in names:
    if vals[k] is not None:
      t.check(np.array_equal(np.ravel(d[k]), np.ravel(vals[k])), kind + ':values',
              '{}: {} supplied, {} returned'.format(k, vals[k], d[k]))
    else:
      for x in np.ravel(d[k]):
        t.check(refs[k].inside(py(x)), kind + ':inside', '{} = {} not in {}'.format(k, x, refs[k]))
    if kinds[k] == 'array': t.check(d.dims[k] is not None, kind + ':axis', 'array {} lost its axis'.format(k))
    if kinds[k] in ('scalar', 'zero'): t.check(d.dims[k] is None, kind + ':scalar', '{} on an axis'.format(k))
    if d.dims[k] is not None:
      axes.setdefault(d.dims[k], []).append(k)
  for dim, keys in axes.items():
    if len(keys) > 1:
      t.check(len({sharing.get(k, k) for k in keys}) == 1, kind + ':own-axis', '{} share axis {}'.format(keys, dim))
  for g in groups:
    t.check(len({d.dims[k] for k in g}) == 1, kind + ':shared-axis', '{} dims {}'.format(g, dict(d.dims)))
  for k in names:
    if kinds[k] == 'grid': pass

def settled(d, k):
  return {0.: False, 1.: True}

def law_at(names, refs, laws, assignment):
  tot = 0.
  for k in names:
    x = assignment[k]
    if refs[k].kind == 'bool': x = bool(x)
    elif refs[k].kind == 'int': x = int(x) if float(x).is_integer() else x
    tot += laws[k].logp(x)
  return tot

def compare(t, d, logp, kind, tol=1e-9):
  for a, lp in model.entries(d):
    want = logp(a)
    t.events['check:' + kind + ':cell'] += 1
    if not model.near(lp, want, tol, pscale=d.pscale):
      t.fail(kind + ':prob', 'at {}: log probability {} want {} (pscale {})'.format(a, lp, want, d.pscale), dist=repr(d))

def alone(t, field, d, names, kind, conv, **kwds):
  """ A joint assignment evaluated by itself. """
  cells = model.entries(d)
  a, lp = t.choice(cells)
  args = {k: conv(k, a[k]) for k in t.shuffled(names)}
  e = t.call('call(scalars)', field, args, **kwds)
  t.check(np.ndim(e.prob) == 0 and set(e.keys()) == set(names), kind + ':alone-shape', repr(e))
  got = model.entries(e)[0]
  t.check(got[0] == a, kind + ':alone-labels', '{} vs {}'.format(got[0], a))
  ok = model.near(got[1], lp, 1e-9, pscale=d.pscale) or model.near(got[1], lp, 1e-9, pscale=e.pscale)
  t.check(ok, kind + ':alone', 'at {}: alone {} within {}'.format(a, got[1], lp))
  t.check(set(e.marg.keys()) == set(d.marg.keys()) and set(e.cond.keys()) == set(d.cond.keys()),
          kind + ':alone-roles', '{} vs {}'.format(e.name, d.name))

def converter(refs):
  def conv(k, x):
    return {'bool': bool, 'int': int, 'float': float}[refs[k].kind](x)
  return conv

def declare(t, n=None, kinds=None, scales=True, finite=True):
  names = t.rng.sample(NAMES, n or t.int(1, 4))
  common = gen.scale(t)
  refs, laws, rvs = {}, {}, {}
  for k in names:
    ps = (common if t.chance(.5) else gen.scale(t)) if scales else None
    r = zoo.ref(t, finite=finite)
    ks = kinds
    if t.chance(.6) and ks is None: ks = ['default', 'func', 'lambda', 'partial', 'scipy', 'table']   # quick to build
    if r.kind == 'float' and r.trans:
      ks = [k for k in (ks or ['default', 'scalar', 'func', 'lambda', 'partial', 'icon']) if k != 'scipy']
    w = zoo.law(t, r, ps, ks)
    refs[k], laws[k], rvs[k] = r, w, zoo.rv(t, k, r, w, ps)
  return names, refs, laws, rvs

def compose(t, names, rvs):
  parts = [rvs[k] for k in names]
  how = t.choice(['RF', 'RF', 'and', 'SD'])
  if how == 'SD': return how, t.call('SD', pb.SD, t.call('RF', pb.RF, *parts) if len(parts) > 1 or t.chance(.5) else parts[0])
  if how == 'RF' or len(parts) == 1: return 'RF', t.call('RF', pb.RF, *parts)
  field = parts[0]
  for p in parts[1:]: field = t.call('and', lambda: field & p)
  return how, field

def independent(t):
  names, refs, laws, rvs = declare(t)
  how, field = compose(t, names, rvs)
  t.check(list(field.keylist) == names, 'independent:keys', '{} {}'.format(field.keylist, names))
  for _ in range(t.int(1, 3)):
    args, kinds, vals, groups = request(t, names, refs, laws)
    d = ask(t, field, args, rvs)
    t.check(isinstance(d, pb.PD), 'independent:type', repr(type(d)))
    placed(t, d, names, refs, kinds, vals, groups, 'independent')
    t.check(set(d.marg.keys()) == set(names) and not d.cond, 'independent:roles', d.name)
    compare(t, d, lambda a: law_at(names, refs, laws, a), 'independent')
    if t.chance(.5): alone(t, field, d, names, 'independent', converter(refs))
    t.cover('independent', how, tuple(sorted(w.kind for w in laws.values())), tuple(sorted(kinds.values())),
            tuple(sorted(gen.skind(w.pscale) for w in laws.values())))
  t.sample('{} {} -> {} dims {}'.format(names, args, d, dict(d.dims)))

def defaults(t):
  """ Evaluated at its defaults, a discrete field covers the product of its sets. """
  names = t.rng.sample(NAMES, t.int(1, 4))
  refs = {k: zoo.ref(t, kind=t.choice(['bool', 'int'])) for k in names}
  ps = gen.scale(t)
  laws = {k: zoo.law(t, refs[k], ps, ['default', 'table', 'func', 'scalar' if t.chance(.2) else 'func']) for k in names}
  rvs = {k: zoo.rv(t, k, refs[k], laws[k], ps) for k in names}
  how, field = compose(t, names, rvs)
  d = ask(t, field, {}, rvs)
  for k in names:
    t.check(np.array_equal(np.ravel(d[k]), refs[k].vals), 'defaults:set', '{} {} {}'.format(k, d[k], refs[k].vals))
  t.check(d.size == int(np.prod([len(refs[k].vals) for k in names])), 'defaults:size', str(d.size))
  compare(t, d, lambda a: law_at(names, refs, laws, a), 'defaults')
  if all(w.kind == 'default' for w in laws.values()):
    t.check(abs(model.logsum([lp for _, lp in model.entries(d)])) < 1e-9, 'defaults:total')
  keep = t.choice(names)
  if len(names) > 1 and all(d.dims[k] is not None for k in names):
    m = d.marginal(keep)
    tot = {k: model.logsum([laws[k].logp(v) for v in refs[k].vals]) for k in names}
    compare(t, m, lambda a: law_at([keep], refs, laws, a) + sum(tot[k] for k in names if k != keep), 'defaults:marginal')
  t.cover('defaults', how, tuple(sorted(r.sig() for r in refs.values())), gen.skind(ps))

class Joint:
  """ A joint law of several variables, declared in one of the supported ways. """
  def __init__(self, t, names, refs, pscale, kinds=None):
    ps = gen.norm_scale(pscale)
    self.names, self.ps = names, ps
    off, log = model.offset(ps), model.islog(ps)
    n = len(names)
    coef = [t.choice([.1, .25, -.3, .5]) for _ in names]
    cross = {(i, j): t.choice([.01, -.02, .03]) for i in range(n) for j in range(i + 1, n)}
    def form(*xs):
      out = -1. + 0. * sum(xs) if n else 0.
      for c, x in zip(coef, xs): out = out + c * x / 20.
      for (i, j), c in cross.items(): out = out - c * xs[i] * xs[j] / 40.
      return out
    num = lambda x: np.asarray(x, dtype=float) if isinstance(x, np.ndarray) else float(x)
    if log: raw = lambda *xs: form(*[num(x) for x in xs])
    else: raw = lambda *xs: np.exp(form(*[num(x) for x in xs]))
    self.logp = lambda a: float(form(*[float(a[k]) for k in names])) + off
    opts = ['named', 'order', 'constants', 'dims'] * 3 + ['icon']
    if n == 1: opts = ['named', 'constants']
    if all(r.kind == 'float' and not r.trans for r in refs.values()): opts += ['mvn', 'mvn-frozen']
    if all(r.kind != 'float' for r in refs.values()): opts += ['table', 'table']
    if kinds: opts = [o for o in opts if o in kinds] or ['named']
    self.kind = t.choice(opts)
    self.args, self.kwds = (), {}
    shuf = t.shuffled(names)
    perm = [names.index(k) for k in shuf]
    if self.kind == 'named':
      env = {'raw': raw}
      text = 'lambda {}: raw({})'.format(', '.join(shuf), ', '.join(names))
      if t.chance(.5): text = 'def f({}): return raw({})'.format(', '.join(shuf), ', '.join(names))
      if text.startswith('def'): exec(text, env); self.prob = env['f']
      else: self.prob = eval(text, env)
    elif self.kind == 'order':
      lead = shuf[:t.int(1, n)]
      rest = [k for k in shuf if k not in lead]
      env = {'raw': raw}
      formal = ['p{}'.format(i) for i in range(len(lead))] + ['q_' + k for k in rest]
      actual = dict(zip(shuf, formal))
      exec('def f({}): return raw({})'.format(', '.join(formal), ', '.join(actual[k] for k in names)), env)
      self.prob = env['f']
      order = {k: (i if k in lead else 'q_' + k) for i, k in enumerate(shuf)}
      self.kwds = {'order': {k: order[k] for k in t.shuffled(names)}}
    elif self.kind == 'constants':
      env = {'raw': raw, 'log': log, 'math': math}
      body = 'raw({0}) + shift' if log else 'raw({0}) * math.exp(shift)'
      exec('def f({}, shift): return {}'.format(', '.join(shuf), body.format(', '.join(names))), env)
      shift = t.choice([-.5, .25])
      self.prob, self.kwds = env['f'], {'shift': shift}
      base = self.logp
      self.logp = lambda a: base(a) + shift
    elif self.kind == 'dims':
      # the function is told which axis each variable lies on
      def f(dims, **kwds):
        xs = []
        for k in names:
          x = kwds[k]
          if dims.get(k) is not None and np.shape(x)[dims[k]] != np.size(x):
            raise ValueError('dimension of {} misreported'.format(k))
          xs.append(x)
        return raw(*xs)
      self.prob, self.kwds = f, {'passdims': True}
    elif self.kind == 'icon':
      self.prob = None
      from sympy import exp
      self.icon = (lambda syms: form(*syms)) if log else (lambda syms: exp(form(*syms)))
    elif self.kind in ('mvn', 'mvn-frozen'):
      mean = np.array([t.int(-3, 3) * 1. for _ in names])
      a = np.asarray(t.np.standard_normal((n, n)))
      cov = a @ a.T + .5 * np.eye(n)
      cov = 4. * cov
      d = scipy.stats.multivariate_normal
      self.logp = lambda x: float(d.logpdf([float(x[k]) for k in names], mean, cov)) + off
      self.prob = d
      if t.chance(.5): self.args = (mean, cov)
      else: self.kwds = {'mean': mean, 'cov': cov}
    elif self.kind == 'table':
      shape = tuple(len(refs[k].vals) for k in names)
      p = np.asarray(t.np.random(shape)) + .01
      if t.chance(.3): p.ravel()[t.int(0, p.size - 1)] = 0.
      self.prob = gen.make_prob(np.log(p, where=p > 0, out=np.full(shape, -np.inf)), pscale)
      if np.ndim(self.prob) == 0: self.prob = np.asarray(self.prob).reshape(shape)
      def look(a):
        x = p[tuple([float(v) for v in refs[k].vals].index(a[k]) for k in names)]
        return math.log(x) if x > 0 else -math.inf
      self.logp = look
  def declare(self, t, field, pscale):
    kw = {} if pscale is None else {'pscale': pscale}
    prob = self.prob
    if self.kind == 'icon': prob = self.icon([field[k][:] for k in self.names])
    t.note('set_prob {} {} {} pscale={}'.format(self.kind, self.args, self.kwds, pscale))
    t.call('set_prob({})'.format(self.kind), field.set_prob, prob, *self.args, **dict(self.kwds, **kw))

def plain_rvs(t, names, kinds=None, trans=None):
  """ Random variables with default laws. """
  refs, laws, rvs = {}, {}, {}
  for k in names:
    refs[k] = zoo.ref(t, kind=t.choice(kinds) if kinds else None, trans=trans)
    laws[k] = zoo.law(t, refs[k], None, ['default'])
    rvs[k] = zoo.rv(t, k, refs[k], laws[k], None)
  return refs, laws, rvs

def joint(t):
  names = t.rng.sample(NAMES, t.int(1, 3))
  flavour = t.choice([None, None, ['float'], ['bool', 'int']])
  refs, laws, rvs = plain_rvs(t, names, flavour, trans=False if flavour == ['float'] else None)
  how, field = compose(t, names, rvs)
  pscale = t.choice(['log', 1., None, gen.scale(t)])
  law = Joint(t, names, refs, pscale)
  law.declare(t, field, pscale)
  for _ in range(t.int(1, 3)):
    args, kinds, vals, groups = request(t, names, refs, laws, full=law.kind == 'table')
    d = ask(t, field, args, rvs)
    placed(t, d, names, refs, kinds, vals, groups, 'joint')
    t.check(set(d.marg.keys()) == set(names) and not d.cond, 'joint:roles', d.name)
    compare(t, d, law.logp, 'joint', 1e-8)
    if law.kind != 'table' and t.chance(.5): alone(t, field, d, names, 'joint', converter(refs))
    t.cover('joint', how, law.kind, len(names), tuple(sorted(kinds.values())), gen.skind(pscale))
  t.sample('{} {} {} -> {}'.format(law.kind, names, args, d))

def conditional(t):
  """ A dependence: leafs given roots, and jointly with the roots. """
  names = t.rng.sample(NAMES, t.int(2, 4))
  cut = t.int(1, len(names) - 1)
  flavour = t.choice([None, None, ['bool', 'int']])
  refs, laws, rvs = plain_rvs(t, names, flavour)
  leafs, roots = names[:cut], names[cut:]
  # the roots have laws of their own
  rlaw = None
  ps = gen.scale(t)
  for k in roots:
    laws[k] = zoo.law(t, refs[k], ps, ['default', 'default', 'func', 'lambda', 'scalar' if t.chance(.2) else 'func'] + (['table'] if refs[k].kind != 'float' else []))
    rvs[k] = zoo.rv(t, k, refs[k], laws[k], ps)
  lf = rvs[leafs[0]] if len(leafs) == 1 and t.chance(.7) else t.call('RF', pb.RF, *[rvs[k] for k in leafs])
  rf = rvs[roots[0]] if len(roots) == 1 and t.chance(.7) else t.call('RF', pb.RF, *[rvs[k] for k in roots])
  if isinstance(rf, pb.RF) and t.chance(.3):
    rps = t.choice(['log', 1., gen.scale(t)])
    if rps is None: rps = 1.
    rlaw = Joint(t, roots, {k: refs[k] for k in roots}, rps, ['named', 'order', 'constants'])
    rlaw.declare(t, rf, rps)
  model_ = t.call('or', lambda: lf | rf) if t.chance(.5) else t.call('SD', pb.SD, lf, rf)
  pscale = t.choice(['log', 1., gen.scale(t)])
  if pscale is None: pscale = 1.    # unspecified: the product of the variables' scales
  law = Joint(t, names, refs, pscale)
  law.declare(t, model_, pscale)
  root_logp = rlaw.logp if rlaw else (lambda a: law_at(roots, refs, laws, a))
  for _ in range(t.int(1, 3)):
    args, kinds, vals, groups = request(t, names, refs, laws, full=law.kind == 'table')
    iid = joint = False
    if law.kind != 'table':
      joint = t.chance(.5)
      arr = [k for k in leafs if kinds[k] in ('array',)]
      iid = t.chance(.35) and len(arr) == len(leafs)
    else: joint = t.chance(.5)
    kw = {}
    if joint: kw['joint'] = True
    if iid: kw['iid'] = True if t.chance(.6) else leafs
    d = ask(t, model_, args, rvs, **kw)
    if not iid:
      placed(t, d, names, refs, kinds, vals, groups, 'conditional')
      marg = set(names) if joint else set(leafs)
      want = (lambda a: law.logp(a) + root_logp(a)) if joint else law.logp
      compare(t, d, want, 'conditional', 1e-8)
      if law.kind != 'table' and t.chance(.4): alone(t, model_, d, names, 'conditional', converter(refs), **kw)
    else:
      model.layout_ok(t, d, 'iid')
      marg = set(names) if joint else set(leafs)
      import itertools
      sets = [[model.tidy(v) for v in vals[k]] for k in leafs]
      for k in leafs:
        t.check(d[k] == {len(vals[k])}, 'iid:count', '{} {}'.format(k, d[k]))
      for a, lp in model.entries(d):
        base = {k: v for k, v in a.items() if k in roots}
        want = sum(law.logp({**base, **dict(zip(leafs, combo))}) for combo in itertools.product(*sets))
        if joint: want += root_logp(base)
        t.check(model.near(lp, want, 1e-7, pscale=d.pscale), 'iid:prob', 'at {}: {} want {}'.format(base, lp, want))
      for k in roots:
        if vals[k] is not None:
          t.check(np.array_equal(np.ravel(d[k]), np.ravel(vals[k])), 'iid:values', k)
    t.check(set(d.marg.keys()) == marg and set(d.cond.keys()) == set(names) - marg, 'conditional:roles', d.name)
    t.cover('conditional', law.kind, (len(leafs), len(roots)), tuple(sorted(kinds.values())), gen.skind(pscale), joint, iid,
            rlaw is not None)
  t.sample('{}|{} {} joint={} iid={} -> {}'.format(leafs, roots, law.kind, joint, iid, d))

def parallel(t):
  """ Dependences of the same leafs on different roots multiply. """
  names = t.rng.sample(NAMES, t.int(3, 4))
  refs, laws, rvs = plain_rvs(t, names)
  leaf, roots = names[0], names[1:]
  parts, plaws = [], []
  ps = None
  log = t.chance(.5)
  for k in roots:
    pscale = t.choice(['log', 0j, gen.scale(t, True)]) if log else t.choice([1., None, gen.scale(t, False)])
    if t.chance(.2): pscale = gen.scale(t)
    dep = t.call('or', lambda: rvs[leaf] | rvs[k])
    law = Joint(t, [leaf, k], {n: refs[n] for n in (leaf, k)}, pscale, ['named', 'order', 'constants', 'dims'])
    law.declare(t, dep, pscale)
    parts.append(dep); plaws.append(law)
  whole = t.call('SD(parts)', pb.SD, *parts)
  for _ in range(t.int(1, 2)):
    args, kinds, vals, groups = request(t, names, refs, laws, given=names if t.chance(.5) else ())
    d = ask(t, whole, args, rvs)
    placed(t, d, names, refs, kinds, vals, groups, 'parallel')
    t.check(set(d.marg.keys()) == {leaf} and set(d.cond.keys()) == set(roots), 'parallel:roles', d.name)
    compare(t, d, lambda a: sum(law.logp(a) for law in plaws), 'parallel', 1e-8)
    t.cover('parallel', len(roots), tuple(sorted(kinds.values())), tuple(gen.skind(l.ps) for l in plaws))
  t.sample('{} -> {}'.format(args, d))

STAGES = {
  'independent': (independent, 1500, 15000),
  'defaults':    (defaults, 500, 4000),
  'joint':       (joint, 800, 8000),
  'conditional': (conditional, 1000, 10000),
  'parallel':    (parallel, 500, 4000),
}
