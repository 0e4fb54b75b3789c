""" Case runner, verdicts, evidence and known findings. """
import collections, hashlib, json, os, random, resource, signal, sys, time, traceback, warnings
import multiprocessing
import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('PBMON_EVIDENCE') or ROOT   # where evidence/ and replays/ go
EVIDENCE, REPLAYS = os.path.join(OUT, 'evidence'), os.path.join(OUT, 'replays')
FINDINGS = os.path.join(ROOT, 'known_findings.json')

class Violation(Exception):
  def __init__(self, kind, msg, detail=None):
    super().__init__(msg)
    self.kind, self.msg, self.detail = kind, msg, detail

class Skip(Exception):
  """ The generated case is outside the property's domain. """

class Listed(Exception):
  """ The case ran into a listed known finding and cannot go on. """

def short(obj, n=400):
  text = obj if isinstance(obj, str) else repr(obj)
  return text if len(text) <= n else text[:n] + '...'

class Case:
  """ One execution: random streams, call recorder, checks, counters. """
  def __init__(self, prop, stage, index, seed, findings):
    self.prop, self.stage, self.index, self.seed = prop, stage, index, seed
    key = '{}/{}/{}/{}'.format(prop, stage, index, seed)
    num = int(hashlib.sha256(key.encode()).hexdigest()[:15], 16)
    self.rng = random.Random(num)
    self.np = np.random.default_rng(num)
    np.random.seed(num % (2**32 - 1))
    random.seed(num)
    self.findings = findings
    self.events = collections.Counter()   # monitored events by kind
    self.covered = set()                  # distinct non-trivial signatures
    self.listed = collections.Counter()   # known findings observed
    self.samples = []
    self.trace = []

  # -- random helpers
  def choice(self, seq):
    return seq[self.rng.randrange(len(seq))]
  def chance(self, p):
    return self.rng.random() < p
  def int(self, lo, hi):
    return self.rng.randint(lo, hi)
  def shuffled(self, seq):
    seq = list(seq)
    self.rng.shuffle(seq)
    return seq

  # -- observation
  def note(self, text):
    self.trace.append(short(text))
  def call(self, label, func, *args, **kwds):
    """ Calls the code under test: an exception is a violation, since every
    generated call is one the interface accepts. """
    kind = kwds.pop('_kind', label.split('(')[0].strip())
    self.trace.append(short('call ' + label))
    self.events['call:' + kind] += 1
    try:
      with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
          return func(*args, **kwds)
    except (Violation, Skip, Listed):
      raise
    except Exception as error:
      tail = traceback.extract_tb(error.__traceback__)
      where = ['{}:{}'.format(f.name, f.line) for f in tail
               if '/repo/' in f.filename][-3:]
      self.fail('raise:' + kind, '{} raised {}: {}'.format(
          label, type(error).__name__, short(str(error))), where=where)
  def rejects(self, label, func, *args, **kwds):
    """ The call must be refused with an exception. """
    kind = kwds.pop('_kind', label.split('(')[0].strip())
    self.events['reject:' + kind] += 1
    try:
      with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
          res = func(*args, **kwds)
    except Exception:
      return
    self.fail('accept:' + kind, '{} was accepted: {}'.format(label, short(res)))

  def fail(self, kind, msg, **detail):
    if kind in self.findings:
      self.listed[kind] += 1
      raise Listed(kind)
    raise Violation(kind, msg, detail)
  def check(self, cond, kind, msg='', **detail):
    self.events['check:' + kind] += 1
    if not cond:
      self.fail(kind, msg or kind, **detail)
  def close(self, got, want, kind, msg='', rtol=1e-9, atol=1e-290, **detail):
    self.events['check:' + kind] += 1
    try:
      g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
      ok = g.shape == w.shape or g.size == w.size == 1
      if ok:
        g, w = np.ravel(g), np.ravel(w)
        with np.errstate(all='ignore'):
          ok = bool(np.all((g == w) | (np.abs(g - w) <= atol + rtol*np.abs(w))
                           | (np.isnan(g) & np.isnan(w))))
    except (TypeError, ValueError):
      ok = False
    if not ok:
      self.fail(kind, '{}: got {} want {}'.format(msg or kind, short(got), short(want)),
                **detail)
  def cover(self, *sig):
    self.covered.add(repr(sig))
  def sample(self, obj):
    if len(self.samples) < 1:
      self.samples.append(short(obj, 1200))

def load_findings(prop):
  """ Kinds of listed (unrepaired) findings for the property. """
  try:
    with open(FINDINGS) as handle:
      entries = json.load(handle)['known']
  except FileNotFoundError:
    return {}
  return {e['kind']: e for e in entries if e['property'] == prop}

# ------------------------------------------------------------------------------
class Hang(BaseException):
  """ Raised by the timer below: not an Exception, so that neither the code monitored nor a monitor swallows it. """

HANG_S = 150 # seconds of processor time: hundreds of times what the slowest case takes

def _hung(signum, frame):
  raise Hang(''.join(traceback.format_stack(frame)[-8:]))

def _limits():
  signal.signal(signal.SIGPROF, _hung)
  try: # so that a runaway allocation is an error in the call which makes it
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, resource.RLIM_INFINITY))
  except (ValueError, OSError):
    pass

def _run_range(job):
  prop, stage, indices, seed, deadline = job
  stages = load_stages(prop)
  func = stages[stage][0]
  findings = load_findings(prop)
  out = {'n': 0, 'skips': 0, 'events': collections.Counter(), 'covered': set(),
         'listed': collections.Counter(), 'samples': [], 'viol': [], 'error': None}
  for index in indices:
    if time.time() > deadline or len(out['viol']) >= 2:
      break
    case = Case(prop, stage, index, seed, findings)
    try:
      with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
          signal.setitimer(signal.ITIMER_PROF, HANG_S)
          try:
            func(case)
          finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Hang as hang:
      out['viol'].append({'property': prop, 'stage': stage, 'case': index, 'seed': seed, 'kind': 'hang',
                          'message': 'no result after {} s of processor time'.format(HANG_S),
                          'detail': {'where': short(str(hang), 3000)}, 'trace': case.trace[-60:]})
      break
    except Skip:
      out['skips'] += 1
    except Listed:
      pass
    except Violation as v:
      out['viol'].append({'property': prop, 'stage': stage, 'case': index,
                          'seed': seed, 'kind': v.kind, 'message': short(v.msg, 3000),
                          'detail': {k: short(x, 3000) for k, x in (v.detail or {}).items()},
                          'trace': case.trace[-60:]})
    except (AttributeError, TypeError, ValueError, KeyError, IndexError, ArithmeticError,
            AssertionError) as error:
      # The oracle could not even read what the call returned: it is malformed.
      out['viol'].append({'property': prop, 'stage': stage, 'case': index, 'seed': seed,
                          'kind': 'malformed-result', 'message': repr(error),
                          'detail': {'where': traceback.format_exc()[-1500:]},
                          'trace': case.trace[-60:]})
    except Exception:
      out['error'] = 'stage {} case {}: {}'.format(stage, index, traceback.format_exc())
      break
    out['n'] += 1
    out['events'].update(case.events)
    out['covered'].update((stage, c) for c in case.covered)
    out['listed'].update(case.listed)
    if case.samples and len(out['samples']) < 2:
      out['samples'].append({'stage': stage, 'case': index, 'observed': case.samples[0]})
  return out

def load_stages(prop):
  import importlib
  return importlib.import_module('pbmon.props.' + prop.lower()).STAGES

def main(argv):
  import argparse
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default='quick')
  ap.add_argument('--replay')
  ap.add_argument('--stage')
  ap.add_argument('--case', type=int)
  ap.add_argument('--jobs', type=int, default=int(os.environ.get('PBMON_JOBS') or min(8, os.cpu_count() or 1)))
  args = ap.parse_args(argv)
  prop, tier = args.prop, args.tier
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  t0 = time.time()
  stages = load_stages(prop)
  if args.replay:
    rec = json.load(open(args.replay))
    args.stage, args.case, seed = rec['stage'], rec['case'], rec['seed']
  if args.case is not None:
    case = Case(prop, args.stage, args.case, seed, load_findings(prop))
    try:
      stages[args.stage][0](case)
    except (Skip, Listed) as e:
      print('case ended:', type(e).__name__, e)
    except Violation as v:
      print('VIOLATION', v.kind, v.msg, v.detail)
      for line in case.trace: print('  ', line)
      return 1
    print('events', dict(case.events))
    return 0
  budget = {'quick': 240., 'thorough': 3000.}[tier]
  if os.environ.get('PBMON_BUDGET'):
    budget = float(os.environ['PBMON_BUDGET'])
  deadline = t0 + budget
  jobs = []
  for name, spec in stages.items():
    if args.stage and name != args.stage:
      continue
    count = spec[1] if tier == 'quick' else spec[2]
    chunk = max(1, min(50, -(-count // (args.jobs * 2))))
    for lo in range(0, count, chunk):
      jobs.append((prop, name, list(range(lo, min(count, lo + chunk))), seed, deadline))
  # interleave the stages so that a time limit thins all of them alike
  jobs.sort(key=lambda j: (j[2][0] / max(1, (stages[j[1]][1 if tier == 'quick' else 2]))))
  outs = []
  if args.jobs > 1 and len(jobs) > 1:
    with multiprocessing.get_context('fork').Pool(args.jobs, _limits) as pool:
      for job, out in zip(jobs, pool.imap(_run_range, jobs)):
        outs.append((job, out))
  else:
    _limits()
    outs = [(job, _run_range(job)) for job in jobs]
  tot = {'n': 0, 'skips': 0}
  events, covered, listed = collections.Counter(), set(), collections.Counter()
  per_stage, samples, viol, errors = collections.Counter(), [], [], []
  planned = collections.Counter()
  for job, out in outs:
    planned[job[1]] += len(job[2])
    per_stage[job[1]] += out['n'] - out['skips']
    tot['n'] += out['n']; tot['skips'] += out['skips']
    events.update(out['events']); covered |= out['covered']; listed.update(out['listed'])
    if len([s for s in samples if s['stage'] == job[1]]) < 1:
      samples += out['samples'][:1]
    viol += out['viol']
    if out['error']: errors.append(out['error'])
  checks = {k[6:]: v for k, v in sorted(events.items()) if k.startswith('check:')}
  calls = {k[5:]: v for k, v in sorted(events.items()) if k.startswith('call:')}
  rejects = {k[7:]: v for k, v in sorted(events.items()) if k.startswith('reject:')}
  import importlib
  mod = importlib.import_module('pbmon.props.' + prop.lower())
  evidence = {
    'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
    'coverage': {
      'evaluations': tot['n'] - tot['skips'],
      'distinct_nontrivial': len(covered),
      'rule': mod.RULE,
      'samples': samples[:12],
      'cases_per_stage': dict(per_stage),
      'cases_outside_domain': tot['skips'],
      'monitored_calls': calls,
      'oracle_checks': checks,
      'refusals_checked': rejects,
      'known_findings_observed': dict(listed),
    },
    'assumptions': getattr(mod, 'ASSUMPTIONS', []),
    'wall_s': round(time.time() - t0, 2),
    'violations': len(viol),
  }
  if not args.stage:
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, prop + '.json')
    with open(path + '.tmp', 'w') as handle:
      json.dump(evidence, handle, indent=1, default=str)
    os.replace(path + '.tmp', path)
  print('{} {} seed={}: {} cases ({} outside domain), {} calls, {} checks, {} distinct, {:.1f}s'.format(
      prop, tier, seed, tot['n'], tot['skips'], sum(calls.values()), sum(checks.values()),
      len(covered), time.time() - t0))
  if os.environ.get('PBMON_VERBOSE'):
    print(json.dumps({'stages': per_stage, 'calls': calls, 'checks': checks, 'rejects': rejects}, indent=1))
  findings = load_findings(prop)
  for kind in findings:
    if listed.get(kind):
      print('KNOWN-FINDING: property={} {} ({} times)'.format(prop, findings[kind]['what'], listed[kind]))
  if viol:
    os.makedirs(REPLAYS, exist_ok=True)
    seen = set()
    for v in viol:
      if (v['stage'], v['kind']) in seen:
        continue
      seen.add((v['stage'], v['kind']))
      path = os.path.join(REPLAYS, '{}_{}_{}_{}.json'.format(prop, v['stage'], v['case'], v['seed']))
      with open(path, 'w') as handle:
        json.dump(v, handle, indent=1, default=str)
      print('  {} stage={} case={}: {}'.format(v['kind'], v['stage'], v['case'], short(v['message'], 600)))
      print('VIOLATION property={} replay={}'.format(prop, path))
    return 1
  if errors:
    print('ERROR in the harness (no verdict):', errors[0], file=sys.stderr)
    return 2
  for name in planned:
    if per_stage[name] == 0 :
      print('INCONCLUSIVE: stage {} observed nothing'.format(name), file=sys.stderr)
      return 2
  return 0
