""" Builds and validates planted bugs.

  mkseed.py SPEC.py [ID ...]   build /verif/seeded/ID from the entries of SPEC.py and validate
  mkseed.py --check [ID ...]   run the property's quick check against the planted bugs
  mkseed.py --validate [ID...] re-run stable tests and demos of stored bugs

SPEC.py defines SEEDS = [dict(id=, prop=, edits=[(file, old, new)], demo=python source,
needs=, breaks=)]. A scratch copy of /repo is bind-mounted over /repo in a private
mount namespace, so that the real /repo is never touched. """
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
SEEDED = '/verif/seeded'
SCRATCH = '/tmp/seedwork'

def ns(copy, cmd, timeout=900):
  full = ['unshare', '-Urm', 'bash', '-c', 'mount --bind {} /repo && cd /repo && {}'.format(copy, cmd)]
  return subprocess.run(full, capture_output=True, text=True, timeout=timeout)

def copy_of(id, patch=None):
  path = os.path.join(SCRATCH, id)
  shutil.rmtree(path, ignore_errors=True)
  os.makedirs(SCRATCH, exist_ok=True)
  subprocess.run(['cp', '-a', '/repo', path], check=True)
  if patch:
    subprocess.run(['git', '-C', path, 'apply', patch], check=True)
  return path

def stable(copy):
  out = '/tmp/seedwork/{}.json'.format(os.path.basename(copy))
  ns(copy, 'bash /opt/vp/build.sh && bash /opt/vp/test.sh {}'.format(out))
  base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
  try:
    return sorted(base - set(json.load(open(out))['passed']))
  except FileNotFoundError:
    return ['no result']
  finally:
    if os.path.exists(out): os.remove(out)

def validate(id):
  folder = os.path.join(SEEDED, id)
  copy = copy_of(id, os.path.join(folder, 'patch.diff'))
  clean = copy_of(id + '.clean')
  try:
    demo = 'bash {}/demo.sh'.format(folder)
    ok = ns(clean, demo); bad = ns(copy, demo)
    msg = []
    if ok.returncode: msg.append('demo fails on clean: ' + (ok.stdout + ok.stderr)[-800:])
    if not bad.returncode: msg.append('demo passes with bug')
    elif 'DEMO' not in bad.stdout + bad.stderr: msg.append('demo odd: ' + (bad.stdout + bad.stderr)[-800:])
    lost = stable(copy)
    if lost: msg.append('tests lost {}'.format(lost))
    return id, msg
  finally:
    shutil.rmtree(copy, ignore_errors=True); shutil.rmtree(clean, ignore_errors=True)

def build(spec):
  id = spec['id']
  folder = os.path.join(SEEDED, id)
  path = copy_of(id + '.mk')
  try:
    for name, old, new in spec['edits']:
      fn = os.path.join(path, 'probayes', name)
      text = open(fn).read()
      assert text.count(old) == 1, (id, name, old, text.count(old))
      open(fn, 'w').write(text.replace(old, new))
    diff = subprocess.run(['git', '-C', path, 'diff'], capture_output=True, text=True).stdout
    # lines changed must be the original repository's
    os.makedirs(folder, exist_ok=True)
    open(os.path.join(folder, 'patch.diff'), 'w').write(diff)
    open(os.path.join(folder, 'demo.py'), 'w').write(spec['demo'].lstrip())
    open(os.path.join(folder, 'demo.sh'), 'w').write(
        '#!/bin/bash\n# exit 0 on the unchanged tree, nonzero with the change\n'
        'here=$(cd "$(dirname "$0")" && pwd)\n'
        'export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\n'
        'PYTHONPATH=/repo exec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
    json.dump({'property': spec['prop'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']},
              open(os.path.join(folder, 'meta.json'), 'w'), indent=1)
    orig = []
    for name, old, new in spec['edits']:
      base = subprocess.run(['git', '-C', path, 'show', 'c9fe1ea:probayes/' + name],
                            capture_output=True, text=True).stdout
      removed = [l for l in old.splitlines() if l.strip() and l not in new.splitlines()]
      orig += [l for l in removed if l not in base.splitlines()]
    return orig
  finally:
    shutil.rmtree(path, ignore_errors=True)

def check(id, extra=()):
  meta = json.load(open(os.path.join(SEEDED, id, 'meta.json')))
  copy = copy_of(id + '.ck', os.path.join(SEEDED, id, 'patch.diff'))
  try:
    res = {}
    for prop in [meta['property']] + list(extra):
      r = ns(copy, 'cd /verif && PBMON_EVIDENCE=/tmp/seedwork/ev PBMON_JOBS=4 ./run.sh {} quick'.format(prop))
      hit = [l.split('/')[-1] for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
      res[prop] = (r.returncode, hit)
    return id, res
  finally:
    shutil.rmtree(copy, ignore_errors=True)

def main():
  args = sys.argv[1:]
  if args[0] in ('--check', '--validate'):
    ids = args[1:] or sorted(os.listdir(SEEDED))
    func = check if args[0] == '--check' else validate
    with ThreadPoolExecutor(2) as ex:
      for id, res in ex.map(func, ids):
        print(id, res, flush=True)
    return
  env = {}
  exec(open(args[0]).read(), env)
  specs = [s for s in env['SEEDS'] if len(args) == 1 or s['id'] in args[1:]]
  for s in specs:
    notorig = build(s)
    if notorig: print('WARNING', s['id'], 'lines not of the original repository:', notorig)
  with ThreadPoolExecutor(2) as ex:
    for id, res in ex.map(validate, [s['id'] for s in specs]):
      print('validate', id, res or 'ok', flush=True)
  with ThreadPoolExecutor(2) as ex:
    for id, res in ex.map(check, [s['id'] for s in specs]):
      print('check', id, res, flush=True)
main()
