#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed when checks/pNN.py exists."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 'P01': 'TLC enumerates every history of 3 operations over 2 names x 2 values x 2 units on two collections (and simulates seeded histories of 14 over wider alphabets); each is replayed call by call in NamedValues/AviaryValues. Random traces of 40 calls recorded from the code are evaluated by TLC. Values are small rationals and the unit table has 11 units.',
}
exec(open(os.path.join(ROOT, 'tools', 'level_notes.py')).read()) if os.path.exists(os.path.join(ROOT, 'tools', 'level_notes.py')) else None
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    i = json.loads(line)['id']
    if os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i} --tier quick', thorough_cmd=f'./check.sh {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json', level='model_checking',
                           technique='TLA+ specification checked with TLC; TLC-generated behaviours replayed in the real code and recorded executions of the real code validated by TLC',
                           level_note=NOTES[i]))
    else:
        na.append(dict(property=i, reason=globals().get('NA', {}).get(i, 'specification and binding not built yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: every check drives the public API of the working tree in /repo and projects its public state.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
print(len(checks), 'claimed', len(na), 'not')
