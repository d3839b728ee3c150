#!/usr/bin/env python3
"""Writes MANIFEST.json for the property modules that exist."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C21': 'A pure function of its inputs: no time, schedule, I/O, failure or history takes part in it, so simulation '
           'with fault injection has nothing to vary. Wrong kernels that a user could observe are found by C01, C02 '
           'and C08, whose reference model has its own kernels.',
    'C22': 'A pure function of one vector, with no time, schedule, I/O, failure or history in it.',
}
NOTE = {
    'C01': 'Seeded sessions with faults inside the operations, compared with an independent reference posterior; '
           'tolerance 20 eps cond. Exploration: says nothing about plans that were not drawn.',
}
props = [json.loads(x) for x in open(os.path.join(here, 'properties.jsonl'))]
checks, missing = [], []
for p in props:
    i = p['id']
    path = os.path.join(here, 'sim', 'props', i.lower() + '.py')
    if not os.path.exists(path):
        if i not in NA:
            missing.append(i)
        continue
    src = open(path).read()
    tech = src.split('TECHNIQUE = ', 1)[1].split('\n\n')[0] if 'TECHNIQUE = ' in src else "'deterministic simulation with fault injection: seeded histories'"
    note = src.split('NOTE = ', 1)[1].split('\n\n')[0] if 'NOTE = ' in src else repr(NOTE.get(i, ''))
    ns = {}
    exec('t = ' + tech + '\nn = ' + note, ns)
    checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick',
                   'thorough_cmd': f'python3 check.py {i} --tier thorough',
                   'technique': ns['t'], 'level': 'exploration', 'level_note': ns['n']})
na = [{'property': i, 'reason': r} for i, r in NA.items()]
na += [{'property': i, 'reason': 'The check is not built yet.'} for i in missing]
doc = {'version': 1, 'setup_cmd': 'python3 check.py --selftest', 'checks': checks, 'not_applicable': na,
       'notes': 'No hooks in /repo: all seams are the library boundaries (time, scipy, numpy, smt, os) and '
                'sys.monitoring line events. Replay: python3 check.py <ID> --replay <file>.'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
print(len(checks), 'checks; not built:', missing)
