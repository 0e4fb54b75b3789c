""" Writes MANIFEST.json: python3 tools/manifest.py """
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
TECH = {
 'C01': 'monitored scale conversions/products/quotients, exact log-space oracle',
 'C02': 'monitored products, assignment-by-assignment table oracle',
 'C03': 'monitored marginalisation, assignment-by-assignment table oracle',
 'C04': 'monitored conditioning and division, table oracle and reconstruction',
 'C05': 'monitored selections, slices and reindexing, table oracle',
 'C06': 'monitored expectations and quantiles, exact summation oracle',
 'C07': 'monitored remarginalisation, mass conservation oracle',
 'C08': 'monitored sample-set products, event-by-event oracle',
 'C09': 'monitored serialisation round trips in memory and on file',
 'C10': 'monitored variable evaluation and assignment, set-membership oracle, distribution tests',
 'C11': 'monitored random walks, step and bounds oracle',
 'C12': 'monitored variable calls, density/mass oracle, distribution tests',
 'C13': 'monitored field and chain calls, chain-rule oracle',
 'C14': 'monitored transition calls, kernel oracle, stationarity and distribution tests',
 'C15': 'online monitor of every Metropolis(-Hastings) step, distribution tests',
 'C16': 'online monitor of interleaved samplers, exactly-once and ordering oracle',
 'C17': 'monitored conditional-covariance steps, exact Gaussian oracle, distribution tests',
 'C18': 'monitored expression calls, argument-recording oracle',
 'C19': 'snapshot monitor of a shared pool over random operation histories',
 'C20': 'monitored concatenations, exactly-once oracle',
 'C21': 'monitored likelihood helpers and models, direct counting oracle',
 'C22': 'monitored model compositions, reference composition oracle',
 'C23': 'constructor hook and structural invariant monitor over histories',
 'C25': 'differential monitor of declaration histories against fresh objects',
 'C24': 'monitored transformed variables, change-of-variable oracle, distribution tests',
}
checks, na = [], []
for p in props:
  i = p['id']
  if os.path.exists(os.path.join(ROOT, 'pbmon', 'props', i.lower() + '.py')):
    checks.append({'property': i, 'quick_cmd': './run.sh {} quick'.format(i), 'thorough_cmd': './run.sh {} thorough'.format(i),
      'evidence_file': 'evidence/{}.json'.format(i), 'technique': 'runtime monitoring: ' + TECH[i], 'level': 'exploration',
      'level_note': 'Random hostile workloads run against the code in /repo; an independent oracle decides every observed '
        'call. No claim beyond the executions observed (counted in the evidence file). Trusts numpy, scipy and the reference model in pbmon/.'})
  else:
    na.append({'property': i, 'reason': 'check not built yet'})
out = {'version': 1, 'setup_cmd': 'true', 'hooks': {'guard': 'none', 'enable': 'no source hooks: monitors attach at run time from /verif', 'source_commits': []},
       'checks': checks, 'not_applicable': na,
       'notes': 'Pure Python, single threaded: compiler sanitizers and race detectors have nothing to observe; see DESIGN.md.'}
json.dump(out, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
