"""Writes MANIFEST.json from properties.jsonl and props/: run by hand, the result is committed."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
CLAIM = open(os.path.join(H, 'claimed.txt')).read().split('\n')
claims = dict(l.split('|', 1) for l in CLAIM if '|' in l)
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'), encoding='utf-8')]
na = dict(l.split('|', 1) for l in open(os.path.join(H, 'not_applicable.txt'), encoding='utf-8').read().split('\n') if '|' in l)
m = dict(version=1, setup_cmd='python3-vt -c "import z3, sys; sys.path.insert(0, \'.\'); import pyvc.run" && /opt/venv/bin/python -c "import numpy, scipy, sklearn"',
         checks=[], not_applicable=[])
for i in ids:
    if i in claims:
        c = dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                 technique='contracts on the current source, weakest-precondition obligations generated from it on every run and discharged by z3/cvc5',
                 level='proof', level_note=claims[i].strip())
        m['checks'].append(c)
    else:
        m['not_applicable'].append(dict(property=i, reason=na.get(i, 'no contract proved yet (work in progress)').strip()))
m['notes'] = 'pyvc/ reads the functions of /repo unchanged (their syntax trees, nothing is rewritten or copied) and turns them into obligations; props/ holds the contracts; oracle/ evaluates the same properties on the running code.'
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(m['checks']), 'claimed;', [x['property'] for x in m['not_applicable']], 'not')
