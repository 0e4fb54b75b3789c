""" Lines of /repo/probayes never executed by the workloads: /opt/venv/bin/python tools/coverage.py [fraction] [ID..]
A development aid: shows where the monitors see nothing. """
import sys, os, importlib, warnings, glob, dis, types, time
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')
sys.path[:0] = ['/verif', '/repo']
frac = float(sys.argv[1]) if len(sys.argv) > 1 else .1
ids = sys.argv[2:] or ['C%02d' % i for i in range(1, 26)]
mon = sys.monitoring
mon.use_tool_id(mon.COVERAGE_ID, 'cov')
hit = {}
def line(code, n):
  if '/repo/probayes/' in code.co_filename:
    hit.setdefault(code.co_filename, set()).add(n)
  return mon.DISABLE
mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
from pbmon import core
for i in ids:
  t0 = time.time()
  for name, (fn, quick, _) in importlib.import_module('pbmon.props.' + i.lower()).STAGES.items():
    n = max(4, int(quick * frac))
    core._run_range((i, name, list(range(n)), 11, time.time() + 120))
  print(i, '%.0fs' % (time.time() - t0), file=sys.stderr)
def lines(code):
  out = {l for _, _, l in code.co_lines() if l}
  for c in code.co_consts:
    if isinstance(c, types.CodeType): out |= lines(c)
  return out
for f in sorted(glob.glob('/repo/probayes/*.py')):
  src = open(f).read()
  want = lines(compile(src, f, 'exec'))
  miss = sorted(want - hit.get(f, set()))
  print('== %s %d/%d' % (os.path.basename(f), len(want) - len(miss), len(want)))
  rows = src.split('\n')
  for n in miss: print('   %4d %s' % (n, rows[n - 1][:110]))
