#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the table of families below and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ('TLC checks the specification exhaustively within the stated small bounds; the code is bound to it by validating '
        'every recorded run of the real code (built from /repo) against the trace specification. Assurance is for the explored '
        'scenarios; trusted: TLC, the harness in /verif/harness that records observations.')
T = {}


def fam(ids, spec, note):
    for i in ids.split():
        T[i] = (spec, note)


exec(open(os.path.join(V, 'tools', 'families.py')).read())

checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in T:
        checks.append({'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                       'technique': T[p][0], 'level': 'model_checking', 'level_note': T[p][1] + ' ' + BASE})
    else:
        na.append({'property': p, 'reason': 'not built yet: the specification module planned in DESIGN.md does not cover it so far'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed: the public API exposes everything that is observed.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
