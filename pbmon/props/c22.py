""" C22: composed models contain every variable once with the dependencies declared. """
import math
import numpy as np
import probayes as pb
from pbmon import gen, model, zoo
from pbmon.core import Skip

RULE = ('a case composes variables, fields and dependences in random trees, brackets and constructors, then inspects every object made '
        '(operands included) against a reference composition: variables, order, names, leaves, roots, stems, edges, indexing, '
        'subfields and the names of distributions called; cases count by the shape of the composition')
ASSUMPTIONS = ['names identify variables: no two variables of one name are combined',
               'dependences combine with variables and fields if every leaf depends on every root',
               'dependences combine with one another if disjoint, if they share all their leaves or only roots, or as a chain']
NAMES = ['x', 'y', 'z', 'w', 'a', 'b', 'u', 'v', 'x1', 'x10', 'mu', 'n_0']

class Ref:
  """ Reference model: an ordered list of variables, and edges if directed. """
  def __init__(self, kind, names, edges=(), ordered=True, simple=True, leafs=None, roots=None, shape=''):
    self.kind, self.names, self.edges, self.ordered, self.simple, self.shape = kind, list(names), set(edges), ordered, simple, shape
    par = {b for _, b in self.edges}; chi = {a for a, _ in self.edges}
    self.leafs = [n for n in self.names if n not in chi] if leafs is None else list(leafs)
    self.roots = [n for n in self.names if n in chi and n not in par] if roots is None else list(roots)
    self.stems = {n for n in self.names if n in chi and n in par}

class World:
  def __init__(self, t):
    self.t = t; self.stoch = t.chance(.6)
    cls = pb.RV if self.stoch else pb.Variable
    self.F, self.D = (pb.RF, pb.SD) if self.stoch else (pb.Field, pb.Dependence)
    self.names = t.shuffled(NAMES)[:t.int(2, 6)]
    self.vset = {}
    self.vars = {}
    for n in self.names:
      self.vset[n] = t.choice([None, [1, 2, 3], [0, 1], [2, 5]])
      self.vars[n] = cls(n, vtype=bool) if self.vset[n] is None else cls(n, vtype=int, vset=self.vset[n])
    self.made = []
  def size(self, n): return 2 if self.vset[n] is None else len(self.vset[n])
  def values(self, n): return [False, True] if self.vset[n] is None else sorted(self.vset[n])
  def keep(self, obj, ref): self.made.append((obj, ref)); return obj, ref

def und(w, names):
  """ A field of the variables named, in a random bracketing and form. """
  t = w.t
  if len(names) == 1:
    v = w.vars[names[0]]
    if t.chance(.7): return w.keep(v, Ref('var', names, shape='v'))
    return w.keep(t.call('Field of one', w.F, v), Ref('field', names, shape='f1'))
  form = t.choice(['tree', 'tree', 'tree', 'args', 'list', 'tuple', 'field', 'add'])
  vs = [w.vars[n] for n in names]
  if form == 'tree':
    cut = t.int(1, len(names) - 1)
    a, ra = und(w, names[:cut]); b, rb = und(w, names[cut:])
    return w.keep(t.call('and', lambda: a & b), Ref('field', names, shape='({}&{})'.format(ra.shape, rb.shape)))
  if form == 'args': o = t.call('Field of args', w.F, *vs)
  elif form == 'list': o = t.call('Field of list', w.F, list(vs))
  elif form == 'tuple': o = t.call('Field of tuple', w.F, tuple(vs))
  elif form == 'field':
    a, _ = und(w, names); o = t.call('Field of field', w.F, a)
  else:
    cut = t.int(1, len(names) - 1)
    o = t.call('Field of args', w.F, *vs[:cut]); rest = vs[cut:]
    how = t.choice(['one', 'list', 'tuple', 'dict', 'field'])
    if how == 'one':
      for v in rest: t.call('add_var', o.add_var, v)
    elif how == 'list': t.call('add_var list', o.add_var, list(rest))
    elif how == 'tuple': t.call('add_var tuple', o.add_var, tuple(rest))
    elif how == 'dict': t.call('add_var dict', o.add_var, {v.name: v for v in rest})
    else: t.call('add_var field', o.add_var, w.F(*rest))
    form += how
  return w.keep(o, Ref('field', names, shape=form))

def simple(w, leafs, roots):
  """ A conditional model with every leaf dependent on every root. """
  t = w.t
  edges = {(r, l) for r in roots for l in leafs}
  form = t.choice(['or', 'or', 'make', 'left', 'right'] + (['many'] if len(leafs) > 1 else []))
  names = leafs + roots
  if form in ('left', 'right') and len(leafs) > 1:
    cut = t.int(1, len(leafs) - 1)
    if form == 'right':
      a, ra = und(w, leafs[:cut]); b, rb = simple(w, leafs[cut:], roots)
    else:
      a, ra = simple(w, leafs[:cut], roots); b, rb = und(w, leafs[cut:])
    return w.keep(t.call('and ' + form, lambda: a & b), Ref('dep', names, edges, leafs=leafs, roots=roots, shape='({}&{})'.format(ra.shape, rb.shape)))
  if form == 'many':
    cuts = sorted(set(t.rng.sample(range(1, len(leafs)), t.int(1, len(leafs) - 1))))
    parts = [leafs[i:j] for i, j in zip([0] + cuts, cuts + [len(leafs)])]
    args = [und(w, p)[0] for p in parts] + [und(w, roots)[0]]
    return w.keep(t.call('Dependence of many', w.D, *args), Ref('dep', names, edges, leafs=leafs, roots=roots, shape='many{}'.format(len(args))))
  a, ra = und(w, leafs); b, rb = und(w, roots)
  o = t.call('or', lambda: a | b) if form != 'make' else t.call('Dependence', w.D, a, b)
  return w.keep(o, Ref('dep', names, edges, leafs=leafs, roots=roots, shape='({}|{})'.format(ra.shape, rb.shape)))

def join(w, parts, how, shape):
  """ Dependences combined: variables, leaves and roots follow from the edges. """
  t = w.t
  names = []
  for _, r in parts: names += [n for n in r.names if n not in names]
  edges = set().union(*[r.edges for _, r in parts])
  objs = [o for o, _ in parts]
  if how == 'and':
    o = objs[0]
    for p in objs[1:]: o = (lambda o, p: t.call('and of dependences', lambda: o & p))(o, p)
  else: o = t.call('Dependence of dependences', w.D, *objs)
  return w.keep(o, Ref('dep', names, edges, ordered=False, simple=False, shape=how + shape))

def compose(t):
  w = World(t); names = w.names
  kind = t.choice(['field', 'simple', 'simple', 'shared leafs', 'shared roots', 'disjoint', 'chain', 'rootless', 'three'])
  n = len(names)
  if kind == 'field': und(w, names)
  elif kind == 'simple':
    cut = t.int(1, n - 1); simple(w, names[:cut], names[cut:])
  elif kind == 'shared leafs':
    if n < 3: raise Skip('variables')
    k = t.int(1, n - 2); leafs = names[:k]; rest = names[k:]; cut = t.int(1, len(rest) - 1)
    join(w, [simple(w, leafs, rest[:cut]), simple(w, leafs, rest[cut:])], t.choice(['and', 'dep']), kind)
  elif kind == 'shared roots':
    if n < 3: raise Skip('variables')
    k = t.int(1, n - 2); roots = names[:k]; rest = names[k:]; cut = t.int(1, len(rest) - 1)
    join(w, [simple(w, rest[:cut], roots), simple(w, rest[cut:], roots)], t.choice(['and', 'dep']), kind)
  elif kind == 'disjoint':
    if n < 4: raise Skip('variables')
    k = t.int(2, n - 2); a, b = names[:k], names[k:]; i, j = t.int(1, len(a) - 1), t.int(1, len(b) - 1)
    join(w, [simple(w, a[:i], a[i:]), simple(w, b[:j], b[j:])], t.choice(['and', 'dep']), kind)
  elif kind == 'three':
    if n < 4: raise Skip('variables')
    leafs = names[:1]; rs = names[1:4]
    join(w, [simple(w, leafs, [r]) for r in rs], t.choice(['and', 'dep']), kind)
  elif kind == 'rootless':
    k = t.int(1, n - 1); a, b = names[:k], names[k:]
    d = (t.call('Dependence of one', w.D, und(w, a)[0]), Ref('dep', a, (), leafs=a, roots=[], shape='d')); w.keep(*d)
    if len(b) > 1:
      cut = t.int(1, len(b) - 1)
      parts = [d, simple(w, b[:cut], b[cut:])]
      join(w, t.shuffled(parts), t.choice(['and', 'dep']), kind)
  else:
    if n < 3: raise Skip('variables')
    cuts = sorted(t.rng.sample(range(1, n), t.int(2, n - 1))); parts = [names[i:j] for i, j in zip([0] + cuts, cuts + [n])]
    join(w, [simple(w, p, q) for p, q in zip(parts[:-1], parts[1:])], 'dep', kind)
  for o, r in w.made: inspect(t, w, o, r)
  t.cover(kind, w.stoch, n, w.made[-1][1].shape)
  t.sample({'shape': w.made[-1][1].shape, 'name': w.made[-1][0].name})

def inspect(t, w, o, r):
  """ The object is what was declared. """
  lab = r.shape
  if r.kind == 'var':
    t.check(o.name == r.names[0], 'name', '{} named {}'.format(r.names[0], o.name)); return
  t.check(type(o) is (w.D if r.kind == 'dep' else w.F), 'type', '{} is a {}'.format(lab, type(o)))
  keys = list(o.keylist)
  t.check(keys == r.names if r.ordered else sorted(keys) == sorted(r.names), 'variables', '{}: {} instead of {}'.format(lab, keys, r.names))
  t.check(o.nvars == len(o) == len(r.names) and set(o.keyset) == set(r.names) and list(o.vars) == keys, 'count', '{}: {} of {}'.format(lab, o.nvars, r.names))
  t.check(all(v is w.vars[k] for v, k in zip(o.varlist, keys)) and len(o.varlist) == len(keys), 'objects', '{}: {}'.format(lab, o.varlist))
  t.check(all(o[k] is w.vars[k] and o[i] is w.vars[k] and o[i - len(keys)] is w.vars[k] for i, k in enumerate(keys)), 'indexing', lab)
  t.check(o['nonesuch'] is None, 'indexing', 'unknown variable is {}'.format(o['nonesuch']))
  t.check(bool(o) is True and o.unitvar == (len(keys) == 1) and o.is_stochastic == w.stoch, 'flags', lab)
  if r.kind == 'field':
    t.check(o.name == ','.join(r.names), 'name', '{} instead of {}'.format(o.name, r.names))
    t.check(list(o.leafs.keylist) == r.names and not o.roots and not o.stems, 'leafs', lab)
  else:
    leafs, roots = list(o.leafs.keylist), list(o.roots.keylist) if o.roots else []
    t.check(leafs == r.leafs if r.ordered else sorted(leafs) == sorted(r.leafs), 'leafs', '{}: {} instead of {}'.format(lab, leafs, r.leafs))
    t.check(roots == r.roots if r.ordered else sorted(roots) == sorted(r.roots), 'roots', '{}: {} instead of {}'.format(lab, roots, r.roots))
    t.check(set(o.stems or {}) == r.stems, 'stems', '{}: {} instead of {}'.format(lab, o.stems, r.stems))
    t.check(o.name == ','.join(leafs) + ('|' + ','.join(roots) if roots else ''), 'name', '{} of leafs {} roots {}'.format(o.name, leafs, roots))
    t.check(type(o.leafs) is w.F and (not roots or type(o.roots) is w.F), 'type', 'leafs {} roots {}'.format(type(o.leafs), type(o.roots)))
    t.check(all(f[k] is w.vars[k] for f in [o.leafs] + ([o.roots] if roots else []) for k in f.keylist), 'objects', 'leafs and roots')
    edges = {(a.name, b.name) for a, b in o.edges}
    t.check(edges == r.edges, 'edges', '{}: {} instead of {}'.format(lab, sorted(edges), sorted(r.edges)))
    for k in keys:
      t.check({p.name for p in o.predecessors(w.vars[k])} == {a for a, b in r.edges if b == k}, 'edges', 'predecessors of {}'.format(k))
    preds = sorted(o.preds.keylist) if o.preds else []
    t.check(preds == sorted({a for a, b in r.edges if b in r.leafs}), 'preds', '{}: {}'.format(lab, preds))
    if r.roots:
      t.check(o.leafs_roots('leafs') is o.leafs and o.leafs_roots('roots') is o.roots and set(o.subfields) == {'leafs', 'roots'}, 'subfields', lab)
  if t.chance(.3):
    sub = t.shuffled(keys)[:t.int(1, len(keys))]
    arg = t.choice([list, tuple])([k if t.chance(.5) else w.vars[k] for k in sub])
    if len(sub) == 1 and t.chance(.5): arg = arg[0]
    s = t.call('subfield', o.subfield, arg)
    t.check(list(s.keylist) == sub and all(s[k] is w.vars[k] for k in sub) and type(s) is w.F, 'subfield', '{} of {}'.format(s.keylist, sub))
  if t.chance(.4) and (r.kind == 'field' or (r.simple and r.roots)) : called(t, w, o, r)

def called(t, w, o, r):
  """ Distributions are named for all the variables, with conditioning as declared. """
  if w.stoch and r.kind == 'dep': t.call('set_prob', o.set_prob, 1.) if False else None
  if w.stoch and r.kind == 'dep': return    # conditional models need a probability: see the next stage
  given = {k: t.choice(w.values(k)) for k in r.names if t.chance(.3)}
  given = {k: given[k] for k in t.shuffled(list(given))}
  d = t.call('call', o, given) if given or t.chance(.5) else t.call('call', o)
  keys = list(d.keys())
  t.check(keys == r.names, 'called', '{} of {}'.format(keys, r.names))
  for k in r.names:
    want = [given[k]] if k in given else w.values(k)
    t.check(np.ravel(d[k]).tolist() == want, 'values', '{}: {} instead of {}'.format(k, d[k], want))
  shape = tuple(w.size(k) for k in r.names if k not in given)
  t.check(tuple(d.shape) == shape, 'shape', '{} instead of {}'.format(d.shape, shape))

def conditional(t):
  """ Models given a probability evaluate it on all their variables, as conditioned. """
  w = World(t); 
  while not w.stoch: w = World(t)
  names = w.names[:4]; cut = t.int(1, len(names) - 1)
  leafs, roots = names[:cut], names[cut:]
  o, r = simple(w, leafs, roots)
  weight = {n: t.int(1, 5) for n in names}
  def f(**kw):
    s = 1.
    for k, v in kw.items(): s = s + weight[k] * np.asarray(v, dtype=float)
    return s
  t.call('set_prob', o.set_prob, f)
  given = {k: t.choice(w.values(k)) for k in names if t.chance(.3)}
  given = {k: given[k] for k in t.shuffled(list(given))}
  d = t.call('call', o, given) if given or t.chance(.5) else t.call('call', o)
  def lab(k): return k + ('={}'.format(given[k]) if k in given else '')
  t.check(list(d.marg) == leafs and list(d.cond) == roots, 'called', '{} | {} of {}'.format(list(d.marg), list(d.cond), r.shape))
  t.check(d.name == ','.join(map(lab, leafs)) + '|' + ','.join(map(lab, roots)), 'name', '{} of {} given {}'.format(d.name, o.name, given))
  got = model.read(d); n = 1
  for k in names: n *= 1 if k in given else w.size(k)
  t.check(len(got.cells) == n, 'entries', '{} of {}'.format(len(got.cells), n))
  for key, lp in got.cells.items():
    a = dict(key) if not isinstance(key, dict) else key
    s = 1. + sum(weight[k] * float(a[k]) for k in names)
    t.close(np.exp(lp), s, 'prob', 'at {}'.format(a))
  t.cover('conditional', len(leafs), len(roots), len(given), r.shape)

def brackets(t):
  """ The bracketing of a composition is immaterial. """
  w = World(t); names = w.names; n = len(names)
  def sig(o):
    e = sorted((a.name, b.name) for a, b in o.edges) if isinstance(o, pb.Dependence) else None
    return (type(o).__name__, list(o.keylist), o.name, o.id, list(o.leafs.keylist), list(o.roots.keylist) if o.roots else None, e)
  cut = t.int(1, n - 1)
  directed = t.chance(.6)
  got = [simple(w, names[:cut], names[cut:])[0] if directed else und(w, names)[0] for _ in range(3)]
  for o in got[1:]: t.check(sig(o) == sig(got[0]), 'brackets', '{} is not {}'.format(sig(o), sig(got[0])))
  for o, r in w.made: inspect(t, w, o, r)
  t.cover('brackets', w.stoch, n, directed, tuple(r.shape for o, r in w.made[-1:]))

def refusals(t):
  """ Unsound compositions are refused and leave their operands as they were. """
  w = World(t); names = w.names; n = len(names)
  if n < 3: raise Skip('variables')
  x, y, z = [w.vars[k] for k in names[:3]]
  kind = t.choice(['self', 'overlap', 'overlap and', 'twice', 'cross', 'mixed', 'mixed right', 'type', 'stochastic'])
  fld, r = und(w, names[:2]); made = [(fld, r)] if r.kind == 'field' else []
  dep, rd = simple(w, names[:1], names[1:2]); made.append((dep, rd))
  if kind == 'self': t.rejects('x|x', lambda: x | x)
  elif kind == 'overlap': t.rejects('field|member', lambda: fld | w.vars[names[t.int(0, 1)]])
  elif kind == 'overlap and': t.rejects('root & dependence', lambda: y & dep)
  elif kind == 'twice': t.rejects('add_var of a member', fld.add_var, t.choice([x, [z, y]]))
  elif kind == 'cross': t.rejects('dependence|dependence', lambda: dep | (z | w.vars[names[0]] if t.chance(.5) else y | z))
  elif kind == 'mixed': t.rejects('dependence|variable', lambda: dep | z)
  elif kind == 'mixed right': t.rejects('variable|dependence', lambda: z | dep)
  elif kind == 'type': t.rejects('variable & number', lambda: t.choice([x, fld, dep]) & t.choice([1., 'z', None]))
  else:
    other = pb.RV('q', vtype=bool) if not w.stoch else None
    if other is None: raise Skip('stochastic')
    t.rejects('Field of a stochastic variable', pb.Field, x, other)
  if kind != 'twice':
    for o, r in w.made: inspect(t, w, o, r)
  t.cover('refusals', kind, w.stoch, r.shape)

def equality(t):
  """ Fields are equal when of the same variables, in whatever order, and unequal otherwise. """
  w = World(t); names = w.names; n = len(names)
  a = t.shuffled(names)[:t.int(1, n)]
  how = t.choice(['same', 'same', 'fewer', 'more', 'other'])
  b = t.shuffled(a)
  if how == 'fewer': b = b[1:]
  if how in ('more', 'other'):
    rest = [k for k in names if k not in a]
    if not rest: raise Skip('variables')
    b = (b[1:] if how == 'other' else b) + [rest[0]]
  if not b: raise Skip('variables')
  fa, fb = t.call('Field', w.F, *[w.vars[k] for k in a]), t.call('Field', w.F, *[w.vars[k] for k in b])
  if how == 'same' and t.chance(.3):   # equality goes by the names of variables
    cls = pb.RV if w.stoch else pb.Variable
    fb = t.call('Field', w.F, *[cls(k, vtype=int, vset=[4, 5]) for k in b])
  want = set(a) == set(b)
  for l, r in ((fa, fb), (fb, fa)):
    t.check((l == r) is want, 'equality', '{} == {} is {}'.format(l.name, r.name, l == r))
    t.check((l != r) is (not want), 'equality', '{} != {} is {}'.format(l.name, r.name, l != r))
  t.check(fa == fa and not (fa != fa), 'equality', 'itself')
  if n > 1:
    cut = t.int(1, n - 1)
    dep, _ = simple(w, names[:cut], names[cut:])
    both = t.call('Field', w.F, *[w.vars[k] for k in names])
    t.check((dep == both) is False and (both == dep) is False and dep != both, 'equality', 'dependence and field')
    t.check(dep == dep, 'equality', 'dependence and itself')
  t.cover('equality', w.stoch, how, len(a), len(b))

def plural(t):
  """ Several variables declared at once. """
  names = t.shuffled(NAMES)[:t.int(1, 5)]
  arg = ','.join(names) if t.chance(.5) else t.choice([list, tuple])(names)
  stoch = t.chance(.5)
  make = pb.RVs if stoch else __import__('probayes.variable', fromlist=['variables']).variables
  vtype, vset = t.choice([(bool, None), (int, [1, 2, 3]), (float, (0., 1.))])
  kw, args = {}, ()
  if stoch and t.chance(.6):
    kw['pscale'] = t.choice(['log', 2., 1.])
    if vtype is int:
      w = np.array([.2, .3, .5]); args = (np.log(w) if kw['pscale'] == 'log' else w / kw['pscale'],)
  vs = t.call('RVs' if stoch else 'variables', make, arg, vtype, vset, *args, **kw)
  t.check(isinstance(vs, tuple) and [v.name for v in vs] == names, 'plural', '{} of {}'.format(vs, names))
  for v in vs:
    t.check(type(v) is (pb.RV if stoch else pb.Variable) and v.vtype is vtype, 'plural', '{} {}'.format(type(v), v.vtype))
    one = (pb.RV if stoch else pb.Variable)(v.name, vtype, vset, *args, **kw)
    if stoch:
      t.check(v.pscale == one.pscale and type(v.pscale) is type(one.pscale), 'plural', '{} scale {}'.format(v.name, v.pscale))
      x = {bool: True, int: 3, float: .5}[vtype]
      p = t.call('RV()', v, x)
      t.close(model.true_logp(p.prob, p.pscale), {bool: math.log(.5), int: math.log(.5 if args else 1. / 3.), float: 0.}[vtype], 'plural:prob', repr(v), rtol=1e-9, atol=1e-9)
    t.check(list(v.vset) == list(one.vset), 'plural', '{} set {} not {}'.format(v.name, v.vset, one.vset))
  t.cover('plural', stoch, len(names), type(arg).__name__, vtype.__name__)

STAGES = {
  'compose': (compose, 6000, 36000),
  'conditional': (conditional, 1200, 7200),
  'brackets': (brackets, 1200, 7200),
  'refusals': (refusals, 1200, 7200),
  'equality': (equality, 1200, 7200),
  'plural': (plural, 800, 4800),
}
