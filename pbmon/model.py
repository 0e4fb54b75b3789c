""" An independent reference model of (conditional) probability tables.

A table is a plain mapping from complete assignments {variable: value} to the
natural logarithm of the probability they are given. It knows nothing of axes,
reshaping, broadcasting or probability scales: every probayes distribution is
read, through its public attributes only, into this form. """
import collections, math
import itertools
import numpy as np

NEG = -1e300     # probayes writes log(0) as the most negative float

def offset(pscale):
  """ The natural-log offset a probability scale stands for. """
  if isinstance(pscale, complex):
    return pscale.real if abs(pscale.imag) < 1e-300 else -pscale.real
  return math.log(pscale)

def islog(pscale):
  return isinstance(pscale, complex)

def true_logp(number, pscale):
  """ log of the probability represented by a stored number. """
  number = float(number)
  if islog(pscale):
    return -math.inf if number < NEG else number + offset(pscale)
  if number <= 0.:
    return -math.inf
  return math.log(number) + offset(pscale)

def stored(logp, pscale):
  """ The number that represents a log probability at a scale. """
  if islog(pscale):
    return -1.7976931348623158e+308 if logp == -math.inf else logp - offset(pscale)
  return 0. if logp == -math.inf else math.exp(logp - offset(pscale))

def logsum(logps):
  logps = [x for x in logps if x != -math.inf]
  if not logps:
    return -math.inf
  top = max(logps)
  return top + math.log(math.fsum(math.exp(x - top) for x in logps))

def near(x, y, tol=1e-9, flush=-690., pscale=None):
  """ Log probabilities agree (to a relative error in probability space). """
  if pscale is not None and not islog(pscale) and max(x, y) - offset(pscale) < flush:
    return True    # no precision left on a linear scale
  if x == y:
    return True
  if x == -math.inf or y == -math.inf:
    # 1e-300 and less may flush to zero on a linear scale
    other = y if x == -math.inf else x
    return other < flush
  return abs(x - y) <= tol * (1. + abs(x) * 1e-3) + 4e-15 * (abs(x) + abs(y))

def tidy(value):
  """ A canonical hashable form of a value. """
  if isinstance(value, (set, frozenset)):
    return ('set',) + tuple(sorted(value))
  if isinstance(value, np.ndarray):
    value = value.ravel()[0] if value.size == 1 else value
  if isinstance(value, (bool, np.bool_)):
    return float(value)
  return float(value)

class Table:
  """ marg, cond: variable names in order; cells: {assignment: logp}. """
  def __init__(self, marg, cond, cells):
    self.marg, self.cond, self.cells = list(marg), list(cond), cells

  @property
  def keys(self):
    return self.marg + self.cond

  def key(self, assignment):
    return frozenset(assignment.items())

  def mass(self):
    return logsum(self.cells.values())

def entries(dist):
  """ All (assignment dict, logp) pairs of a probayes PD, one for each element
  of its probability array, following its own labels and dims. """
  fixed, axes = {}, {}
  for key in dist.keys():
    dim = dist.dims[key]
    if dim is None:
      fixed[key] = tidy(dist[key])
    else:
      vals = np.ravel(dist[key])
      axes[key] = (int(dim), [tidy(v) for v in vals])
  prob = np.asarray(dist.prob, dtype=float)
  out = []
  for idx in np.ndindex(*prob.shape):
    assignment = dict(fixed)
    for key, (dim, vals) in axes.items():
      assignment[key] = vals[idx[dim]]
    out.append((assignment, true_logp(prob[idx], dist.pscale)))
  return out

def read(dist):
  cells = {}
  for assignment, logp in entries(dist):
    key = frozenset(assignment.items())
    if key in cells:
      raise ValueError('repeated assignment {}'.format(assignment))
    cells[key] = logp
  return Table(dist.marg.keys(), dist.cond.keys(), cells)

def layout_ok(t, dist, kind):
  """ Shape agreement between labels, dims and probabilities of any PD. """
  dims = dist.dims
  t.check(set(dims.keys()) == set(dist.keys()), kind + ':dims-keys',
          'dims {} do not cover values {}'.format(list(dims), list(dist.keys())))
  used = sorted({int(d) for d in dims.values() if d is not None})
  shape = np.shape(dist.prob)
  t.check(used == list(range(len(shape))), kind + ':dims-axes',
          'dims {} do not match prob shape {}'.format(dict(dims), shape))
  for key, dim in dims.items():
    if dim is None:
      t.check(not isinstance(dist[key], np.ndarray) or dist[key].ndim == 0,
              kind + ':singleton', 'dimensionless {} holds an array'.format(key))
    else:
      t.check(np.size(dist[key]) == shape[dim], kind + ':axis-size',
              '{} has {} values along axis {} of shape {}'.format(
                  key, np.size(dist[key]), dim, shape))
      t.check(np.shape(dist[key]) == tuple(shape[dim] if i == dim else 1
                                           for i in range(len(shape))),
              kind + ':axis-place', '{} of shape {} not along axis {} of {}'.format(
                  key, np.shape(dist[key]), dim, shape))
  names = list(dist.marg.keys()) + list(dist.cond.keys())
  t.check(len(names) == len(set(names)) and set(names) == set(dist.keys()),
          kind + ':name', 'name {} does not account for keys {}'.format(
              dist.name, list(dist.keys())))
  named_ok(t, dist, kind)

def named_ok(t, dist, kind):
  """ A value stated in the name is the value held. """
  for key, label in list(dist.marg.items()) + list(dist.cond.items()):
    if '=' not in label: continue
    head, said = label.split('=', 1)
    t.check(head.strip() == key, kind + ':label', '{!r} labelled {!r}'.format(key, label))
    if said[:1] in '[{(' : continue
    held = dist[key]
    ok = dist.dims[key] is None
    if ok:
      held = tidy(held)
      ok = str(held) == said
      if not ok:
        try: ok = math.isclose(float({'True': 1, 'False': 0}.get(said, said)), float(held), rel_tol=1e-6, abs_tol=1e-12)
        except (TypeError, ValueError): ok = False
    t.check(ok, kind + ':label', '{!r} labelled {!r} holds {!r}'.format(key, label, held))

def agree(t, dist, want, kind, tol=1e-9, strict=None):
  """ The distribution must represent exactly the table `want`. """
  layout_ok(t, dist, kind)
  if strict is None:
    strict = islog(dist.pscale)     # nothing flushes to zero on a log scale
  flush = -math.inf if strict else -690.
  t.check(set(dist.marg.keys()) == set(want.marg), kind + ':marg',
          'marginal variables {} should be {}'.format(list(dist.marg), want.marg))
  t.check(set(dist.cond.keys()) == set(want.cond), kind + ':cond',
          'conditional variables {} should be {}'.format(list(dist.cond), want.cond))
  got = {}
  for assignment, logp in entries(dist):
    key = frozenset(assignment.items())
    t.check(key not in got, kind + ':repeat', 'repeated assignment')
    got[key] = logp
  t.check(set(got) == set(want.cells), kind + ':labels',
          'assignments differ: {} results, {} expected; e.g. {}'.format(
              len(got), len(want.cells),
              [dict(k) for k in list(set(got) ^ set(want.cells))[:2]]))
  for key, logp in want.cells.items():
    if not near(got[key], logp, tol, flush):
      t.fail(kind + ':value', 'at {}: log probability {} should be {}'.format(
          dict(key), got[key], logp), dist=repr(dist), dims=dict(dist.dims),
          pscale=dist.pscale)
  t.events['check:' + kind + ':cells'] += len(got)

# ------------------------------------------------------------------------------
def marginalise(table, keys):
  keys = set(keys)
  groups = collections.OrderedDict()
  for key, logp in table.cells.items():
    rest = frozenset((k, v) for k, v in key if k not in keys)
    groups.setdefault(rest, []).append(logp)
  return Table([k for k in table.marg if k not in keys], table.cond,
               {k: logsum(v) for k, v in groups.items()})

def conditionalise(table, keys):
  """ P(rest | cond, keys) = P(rest, keys | cond) / P(keys | cond). """
  keys = set(keys)
  given = keys | set(table.cond)
  sums = {}
  for key, logp in table.cells.items():
    g = frozenset((k, v) for k, v in key if k in given)
    sums.setdefault(g, []).append(logp)
  sums = {k: logsum(v) for k, v in sums.items()}
  cells = {}
  for key, logp in table.cells.items():
    g = frozenset((k, v) for k, v in key if k in given)
    cells[key] = -math.inf if logp == -math.inf else logp - sums[g]
  return Table([k for k in table.marg if k not in keys],
               table.cond + [k for k in table.marg if k in keys], cells)

def product(tables):
  marg = [k for t in tables for k in t.marg]
  cond = []
  for t in tables:
    for k in t.cond:
      if k not in marg and k not in cond:
        cond.append(k)
  cells = {frozenset(): 0.}
  for table in tables:
    new = {}
    for key, logp in cells.items():
      left = dict(key)
      for other, logq in table.cells.items():
        right = dict(other)
        if all(left.get(k, v) == v for k, v in right.items()):
          new[frozenset({**left, **right}.items())] = logp + logq
    cells = new
  return Table(marg, cond, cells)

def restrict(table, values):
  values = {k: tidy(v) for k, v in values.items()}
  return Table(table.marg, table.cond, {
      key: logp for key, logp in table.cells.items()
      if all(dict(key)[k] == v for k, v in values.items())})

def rename(table, mapping):
  m = lambda k: mapping.get(k, k)
  return Table([m(k) for k in table.marg], [m(k) for k in table.cond],
               {frozenset((m(k), v) for k, v in key): logp
                for key, logp in table.cells.items()})
