"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the checks that exist."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import props

with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in props.P:
        f.write(json.dumps(p['rec']) + '\n')
checks, na = [], []
for p in props.P:
    i = p['rec']['id']
    if p['na'] or not os.path.exists(os.path.join(root, 'checks', i.lower() + '.py')):
        na.append({'property': i, 'reason': p['na'] or 'check not built yet'})
        continue
    checks.append({'property': i, 'quick_cmd': './check {0} quick'.format(i),
                   'thorough_cmd': './check {0} thorough'.format(i),
                   'evidence_file': 'evidence/{0}.json'.format(i),
                   'technique': p['technique'] or props.BFS,
                   'level': 'model_checking', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: everything is observed through the public modules.  See DESIGN.md.'}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
for p in props.P:
    assert len(p['rec']['title']) <= 80, p['rec']['id']
    import re
    n = len(re.findall(r'[.](?:\s|$)', p['rec']['statement']))
    if n > 3:
        print(p['rec']['id'], n, 'sentences')
print(len(checks), 'checks', len(na), 'not applicable')
