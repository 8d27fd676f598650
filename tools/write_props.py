"""Writes properties.jsonl and MANIFEST.json (the committed files are its output)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
from statements import P, NA

COMMON = (' Calls with senseless arguments are refused and change nothing, and what a call returns shares no data with '
          'the objects it came from.')
lines = []
checks = []
for pid in sorted(P):
    p = P[pid]
    p['statement'] += COMMON
    lines.append({'id': pid, 'title': p['title'], 'statement': p['statement'],
                  'quantifier': {'over': p.get('over', ['inputs', 'histories']), 'text': p['quant']},
                  'why_tests_cant': p['why'],
                  'anchors': {'files': p['files'],
                              'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                              'observe_at': p.get('obs', []), 'hook_needed': None}})
    if pid in NA:
        continue
    assert pid in registry.PROPS, pid
    checks.append({
        'property': pid,
        'quick_cmd': 'python3 vrun.py check {} quick'.format(pid),
        'thorough_cmd': 'python3 vrun.py check {} thorough'.format(pid),
        'evidence_file': 'evidence/{}.json'.format(pid),
        'technique': p.get('technique', 'TLA+ specification; TLC checks recorded histories of the real code '
                           'against it' + ('; model-checked histories replayed on the code'
                                           if registry.PROPS[pid].get('models') else '')),
        'level': 'model_checking',
        'level_note': p.get('note', 'Every call of every recorded history is compared with the specified '
                            'outcome (result, units, masked points, what else changed, refusal). Bounded: '
                            'small grids, rational values, seeded histories; trusts TLC and the projection '
                            'of public attributes.')})
for pid in registry.PROPS:
    assert pid in P, pid
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for x in lines:
        fh.write(json.dumps(x) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
               'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
               'notes': 'TLA+ with TLC. See DESIGN.md. No hooks: the checks only use the public API.'},
              fh, indent=1)
    fh.write('\n')

# DESIGN.md: the table of planted bugs
import glob
rows = ['| bug | property | what it needs |', '|---|---|---|']
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| {} | {} | {} |'.format(os.path.basename(os.path.dirname(f)), m['property'], m['needs'].replace('|', '/')))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(
    open(os.path.join(HERE, 'tools', 'design.md.in')).read().replace('@@SEEDS@@', '\n'.join(rows)))
