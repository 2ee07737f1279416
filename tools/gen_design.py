"""Writes DESIGN.md: design_head.md, a section for each property, the table of planted bugs."""
import glob
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path[:0] = [here, root, '/repo/crysgsu', '/repo/crysgsu/convert']
import props
import costs

out = [open(os.path.join(here, 'design_head.md')).read(), '## Properties\n']
fixed = {}
for l in open(os.path.join(root, 'known_findings.txt')):
    if l.startswith('fixed:'):
        _, p, c, what = l.strip().split(' ', 3)
        fixed.setdefault(p.split('=')[1], []).append((c, what))


def text(b):
    return b if isinstance(b, str) else '; '.join('{0}: {1}'.format(k, v) for k, v in b.items())


for p in props.P:
    r = p['rec']
    i = r['id']
    out.append('### {0}. {1}\n'.format(i, r['title']))
    out.append(r['statement'] + '\n')
    try:
        m = importlib.import_module('checks.' + i.lower())
    except ImportError:
        out.append('*Not checked:* {0}\n'.format(p['na']))
        continue
    q, t = m.describe('quick'), m.describe('thorough')
    out.append('* **Anchors**: ' + '; '.join('`{0}` in {1}'.format(a['name'], a['where'])
                                             for a in r['anchors']['mechanism']))
    out.append('* **Ranges over**: ' + r['quantifier']['text'] + '.')
    out.append('* **Explored**: ' + text(q['rule']).rstrip('.') + '.')
    out.append('* **Bounds**: ' + text(q['bounds']).rstrip('.') + '.')
    if t['bounds'] != q['bounds']:
        out.append('* **Bounds (T)**: ' + text(t['bounds']).rstrip('.') + '.')
    out.append('* **Deciding step**: ' + (p['technique'] or props.BFS) + '.  ' + p['note'])
    if q['assumptions']:
        out.append('* **Assumptions**: ' + ' '.join(a.rstrip('.') + '.' for a in q['assumptions']))
    out.append('* **Beyond the tests**: ' + r['why_tests_cant'])
    out.append('* **Cost** (8 cores): ' + 'quick {0} s'.format(costs.COST[i]) + '.')
    for c, what in fixed.get(i, []):
        out.append('* **Repaired** ({0}): {1}.'.format(c, what))
    out.append('')
out.append('## Planted bugs and what catches them\n')
out.append('Written from the text of the properties and the code.  Each one builds, passes the tests, and fails its '
           'own demonstration.  The check of its property is run on it by `tools/plant.py verify`; where another '
           'entry is given, that check reports it as well or instead.\n')
out.append('| bug | property | needs | caught by |\n| --- | --- | --- | --- |')
for d in sorted(glob.glob(os.path.join(root, 'seeded', '*'))):
    n = os.path.basename(d)
    m = json.load(open(os.path.join(d, 'meta.json')))
    out.append('| {0} | {1} | {2} | {3} |'.format(n, m['property'], m['needs'].replace('|', '/'),
                                                  costs.CAUGHT.get(n, m['property'])))
out.append('')
out += [costs.LESSONS]
with open(os.path.join(root, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out))
