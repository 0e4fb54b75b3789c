""" Rewrites the "fixed" entries of known_findings.json from the fix commits in /repo.
Usage: python3 tools/fixes.py (the property each commit belongs to is listed below). """
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'c9fe1ea'
PROP = '''
C01 C01 C01 C01 C01 C02 C02 C03 C04 C03 C04 C05 C05 C05 C05 C05 C02 C06 C06 C08 C08 C08 C07 C07 C19 C09 C09 C01 C20 C23
C23 C05 C10 C10 C10 C10 C10 C18 C10 C11 C11 C11 C10 C13 C12 C13 C12 C12 C12 C12 C18 C13 C13 C13 C13 C13 C13
C14 C14 C14 C14 C14 C14 C14 C14 C14 C14 C18 C18 C15 C14 C15 C15 C14 C15 C16 C16 C16 C17 C18 C18 C18 C18 C18 C18 C18 C18 C18
C18 C18 C18 C21 C21 C21 C21 C22 C22 C22 C22 C22 C22 C22 C22 C22 C22 C22 C22 C24 C24 C24'''.split()
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', BASE + '..'], text=True).splitlines()
log = [l for l in log if l.split(' ', 1)[1].startswith('fix: ')]
EXTRA = os.path.join(ROOT, 'tools', 'fixes_extra.txt')    # later commits: one property per line
props = PROP + (open(EXTRA).read().split() if os.path.exists(EXTRA) else [])
assert len(props) == len(log), (len(props), len(log))
path = os.path.join(ROOT, 'known_findings.json')
data = json.load(open(path))
data['fixed'] = ['fixed: property={} {} {}'.format(p, *[l.split(' ', 1)[0], 'before it, it did not hold that: ' + l.split(' fix: ', 1)[1]])
                 for p, l in zip(props, log)]
json.dump(data, open(path, 'w'), indent=1)
print(len(log), 'fixes')
