""" Mutation of /repo/probayes to find what the monitors cannot see (a development aid; writes only under /tmp/mut).
  /opt/venv/bin/python tools/mutate.py SEED COUNT [file.py..]    survivors are appended to /tmp/mut/survivors.txt
Each mutant is a copy of the package with one small edit, put before /repo on the path of a private process that runs a
fraction of every check, those nearest to the file first, until one reports a violation. """
import ast, os, random, shutil, subprocess, sys, glob, multiprocessing
SRC = os.environ.get('MUT_SRC', '/repo/probayes')
VERIF = os.environ.get('MUT_VERIF', '/verif')
OUT = '/tmp/mut'
NEAR = {'pd.py': 'C02 C03 C04 C05 C06 C07 C08 C23', 'pd_utils.py': 'C02 C20 C09 C08', 'distribution.py': 'C05 C23 C04',
        'pscales.py': 'C01 C02', 'variable.py': 'C10 C11 C24 C12 C15', 'vtypes.py': 'C10 C12 C14', 'rv.py': 'C12 C14 C24 C15', 'rv_utils.py': 'C14 C12',
        'rf.py': 'C13 C14 C17 C15', 'rf_utils.py': 'C13 C21 C14', 'field.py': 'C11 C13 C22', 'sd.py': 'C13 C15 C14 C16', 'sd_utils.py': 'C13 C15',
        'sp.py': 'C16 C15', 'sp_utils.py': 'C15 C16', 'dependence.py': 'C22 C13', 'ops.py': 'C22', 'expression.py': 'C18 C24', 'expr.py': 'C18 C24',
        'func.py': 'C18', 'functional.py': 'C18', 'cf.py': 'C18 C14', 'prob.py': 'C12 C13', 'sympy_prob.py': 'C12 C13', 'cond_cov.py': 'C17',
        'likelihoods.py': 'C21', 'named_dict.py': 'C23', 'variable_utils.py': 'C18 C10', 'icon.py': 'C18'}
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}

def sites(tree):
  """ (description, edit) for every possible edit, as functions on nodes in place. """
  out = []
  skip = set()
  for n in ast.walk(tree):
    if isinstance(n, ast.Assert) or isinstance(n, ast.Raise):
      for c in ast.walk(n): skip.add(c)
    if isinstance(n, (ast.FunctionDef,)) and n.name in ('__repr__',):
      for c in ast.walk(n): skip.add(c)
    if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and getattr(n.test.left, 'id', '') == '__name__':
      for c in ast.walk(n): skip.add(c)
  for n in ast.walk(tree):
    if n in skip: continue
    ln = getattr(n, 'lineno', 0)
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
      def e(n=n): n.ops[0] = SWAP[type(n.ops[0])]()
      out.append((ln, 'compare', e))
      if type(n.ops[0]) in (ast.Lt, ast.Gt, ast.LtE, ast.GtE):
        def e(n=n): n.left, n.comparators[0] = n.comparators[0], n.left
        out.append((ln, 'compare-flip', e))
    if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) | isinstance(n.right, ast.JoinedStr):
      if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str): continue
      def e(n=n): n.op = BIN[type(n.op)]()
      out.append((ln, 'binop', e))
    if isinstance(n, ast.BoolOp):
      def e(n=n): n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
      out.append((ln, 'boolop', e))
      for i in range(len(n.values)):
        if len(n.values) > 1:
          def e(n=n, i=i): n.values.pop(i)
          out.append((ln, 'drop-operand', e))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
      def e(n=n): n.op = ast.UAdd() ; n.operand = ast.Call(ast.Name('bool', ast.Load()), [n.operand], [])
      out.append((ln, 'drop-not', e))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
      def e(n=n): n.op = ast.UAdd()
      out.append((ln, 'drop-minus', e))
    if isinstance(n, ast.Constant) and type(n.value) in (int, float) :
      def e(n=n): n.value = n.value + 1
      out.append((ln, 'const+1', e))
      if n.value:
        def e(n=n): n.value = type(n.value)(0)
        out.append((ln, 'const0', e))
    if isinstance(n, ast.Constant) and type(n.value) is bool:
      def e(n=n): n.value = not n.value
      out.append((ln, 'bool', e))
    if isinstance(n, ast.IfExp):
      def e(n=n): n.body, n.orelse = n.orelse, n.body
      out.append((ln, 'ifexp', e))
    if isinstance(n, ast.Call):
      if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and getattr(n.func, 'id', '') not in ('isinstance', 'hasattr', 'super', 'zip'):
        def e(n=n): n.args[0], n.args[1] = n.args[1], n.args[0]
        out.append((ln, 'swap-args', e))
      if n.keywords:
        for i in range(len(n.keywords)):
          def e(n=n, i=i): n.keywords.pop(i)
          out.append((ln, 'drop-keyword', e))
      if isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'set', 'list', 'tuple', 'abs', 'float', 'int') and len(n.args) == 1 and not n.keywords:
        def e(n=n): n.func = ast.Lambda(ast.arguments([], [ast.arg('x_')], None, [], [], None, []), ast.Name('x_', ast.Load()))
        out.append((ln, 'drop-' + n.func.id, e))
      if isinstance(n.func, ast.Attribute) and n.func.attr in ('minimum', 'maximum', 'all', 'any', 'zeros', 'ones', 'min', 'max', 'exp', 'log', 'ravel', 'logical_and', 'logical_not'):
        other = {'minimum': 'maximum', 'maximum': 'minimum', 'all': 'any', 'any': 'all', 'zeros': 'ones', 'ones': 'zeros', 'min': 'max', 'max': 'min',
                 'exp': 'log', 'log': 'exp', 'ravel': 'array', 'logical_and': 'logical_or', 'logical_not': 'array'}[n.func.attr]
        def e(n=n, other=other): n.func.attr = other
        out.append((ln, n.func.attr + '->' + other, e))
      if isinstance(n.func, ast.Name) and n.func.id in ('all', 'any', 'min', 'max'):
        other = {'all': 'any', 'any': 'all', 'min': 'max', 'max': 'min'}[n.func.id]
        def e(n=n, other=other): n.func.id = other
        out.append((ln, n.func.id + '->' + other, e))
    for field in ('body', 'orelse'):
      body = getattr(n, field, None)
      if isinstance(body, list) and isinstance(n, (ast.If, ast.For, ast.FunctionDef)):
        for i, s in enumerate(body):
          if s in skip or isinstance(s, (ast.Return, ast.FunctionDef)): continue
          if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant): continue
          if isinstance(s, (ast.Expr, ast.AugAssign, ast.If, ast.Continue, ast.Break)) or isinstance(s, ast.Assign) and field != 'body' or isinstance(n, ast.If) and isinstance(s, ast.Assign):
            def e(n=n, field=field, i=i): getattr(n, field)[i] = ast.Pass()
            out.append((s.lineno, 'drop-' + type(s).__name__, e))
    if isinstance(n, ast.If):
      def e(n=n): n.test = ast.Constant(False)
      out.append((ln, 'if-false', e))
      def e(n=n): n.test = ast.Constant(True)
      out.append((ln, 'if-true', e))
  return out

RUN = r'''
import sys, os, warnings
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')
mut, order, frac = sys.argv[1], sys.argv[2].split(), float(sys.argv[3])
sys.path[:0] = [mut, os.environ.get('MUT_VERIF', '/verif')]
try:
  import probayes
except Exception as e:
  print('KILLED import'); sys.exit()
assert probayes.__file__.startswith(mut), probayes.__file__
import importlib, time
from pbmon import core
for rnd, part in enumerate((.02, frac)):
  for prop in order:
    for name, (fn, quick, _) in importlib.import_module('pbmon.props.' + prop.lower()).STAGES.items():
      n = max(2, int(quick * part))
      lo = 0 if rnd == 0 else max(2, int(quick * .02))
      out = core._run_range((prop, name, list(range(lo, n)), 5, time.time() + 200))
      if out['viol']:
        print('KILLED', prop, name, out['viol'][0]['case'], out['viol'][0]['kind']); sys.exit()
      if out['error']:
        print('KILLED error', prop, name, out['error'][-200:]); sys.exit()
print('SURVIVED')
'''

def job(arg):
  k, fname, index, desc, frac = arg
  d = os.path.join(OUT, 'm%d' % k)
  shutil.rmtree(d, ignore_errors=True)
  shutil.copytree(SRC, d + '/probayes', ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
  tree = ast.parse(open(os.path.join(SRC, fname)).read())
  before = ast.unparse(tree)
  s = sites(tree)[index]
  s[2]()
  ast.fix_missing_locations(tree)
  after = ast.unparse(tree)
  open(d + '/probayes/' + fname, 'w').write(after)
  import difflib
  diff = [l for l in difflib.unified_diff(before.split('\n'), after.split('\n'), lineterm='', n=0) if l[:1] in '+-' and l[:3] not in ('+++', '---')]
  order = NEAR.get(fname, '').split()
  order += [c for c in ['C%02d' % i for i in (1, 2, 3, 4, 5, 6, 7, 8, 20, 23, 9, 19, 10, 11, 21, 22, 12, 13, 14, 15, 16, 17, 24, 18)] if c not in order]
  env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONHASHSEED='0',
             PBMON_WORK=d, TMPDIR=d)
  try:
    r = subprocess.run(['/opt/venv/bin/python', '-c', RUN, d, ' '.join(order), str(frac)], env=env, cwd=d, capture_output=True, text=True, timeout=900)
    res = (r.stdout.strip().split('\n') or [''])[-1] or 'KILLED ' + r.stderr[-200:]
  except subprocess.TimeoutExpired:
    res = 'KILLED timeout'
  shutil.rmtree(d, ignore_errors=True)
  line = '%s:%d %s | %s | %s' % (fname, s[0], s[1], res, '  '.join(diff)[:300])
  with open(os.path.join(OUT, 'all.txt'), 'a') as h: h.write(line + '\n')
  if 'SURVIVED' in res:
    with open(os.path.join(OUT, 'survivors.txt'), 'a') as h: h.write(line + '\n')
  return res

if __name__ == '__main__':
  seed, count = int(sys.argv[1]), int(sys.argv[2])
  files = sys.argv[3:] or sorted(NEAR)
  os.makedirs(OUT, exist_ok=True)
  pool = []
  for f in files:
    tree = ast.parse(open(os.path.join(SRC, f)).read())
    for i, s in enumerate(sites(tree)): pool.append((f, i, s[1]))
  rng = random.Random(seed)
  rng.shuffle(pool)
  print(len(pool), 'sites', flush=True)
  todo = [(k + 1000 * seed, f, i, d, .12) for k, (f, i, d) in enumerate(pool[:count])]
  with multiprocessing.Pool(int(os.environ.get('MUT_JOBS', '7'))) as p:
    res = list(p.imap_unordered(job, todo))
  print(sum('SURVIVED' in r for r in res), 'of', len(res), 'survived')
