"""
Planted bugs: make and verify.  Used by hand while the checks grow; no check reads seeded/.

    plant.py make FILE.py...      FILE.py sets ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO
    plant.py verify [ID...]       demo on clean tree, then with the patch: build, tests, demo, checks
"""
import json
import os
import shutil
import subprocess
import sys

here = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(here), 'seeded')
REPO = '/repo'
SH = '''#!/bin/bash
# Run with cwd = the repository after the build.
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -B "$d/demo.py" "$PWD"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    assert sh('git -C /repo status --porcelain').stdout == '', 'repo is not clean'


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    clean()
    d = os.path.join(SEEDED, ns['ID'])
    os.makedirs(d, exist_ok=True)
    try:
        for fn, old, new in ns['EDITS']:
            p = os.path.join(REPO, fn)
            s = open(p, newline='').read()
            crlf = '\r\n' in s
            if crlf:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert s.count(old) == 1, (fn, s.count(old), old)
            open(p, 'w', newline='').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', REPO, 'diff'], stdout=subprocess.PIPE).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    finally:
        sh('git -C /repo checkout -- .')
    open(os.path.join(d, 'demo.py'), 'w').write(ns['DEMO'].lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write(SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    shutil.copy(os.path.join(here, 'demolib.py'), os.path.join(d, 'demolib.py'))
    json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return ns['ID']


def demo(i):
    r = sh('timeout 300 bash {0}/{1}/demo.sh'.format(SEEDED, i), cwd=REPO)
    return r.returncode, r.stdout


def verify(i, checks=None):
    clean()
    meta = json.load(open(os.path.join(SEEDED, i, 'meta.json')))
    res = {}
    c, o = demo(i)
    res['demo clean'] = c
    if c:
        print(o)
    sh('git -C /repo apply {0}/{1}/patch.diff'.format(SEEDED, i))
    try:
        res['build'] = sh('bash /opt/vp/build.sh').returncode
        sh('bash /opt/vp/test.sh /tmp/plant.json')
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        res['tests lost'] = sorted(base - set(json.load(open('/tmp/plant.json'))['passed']))
        c, o = demo(i)
        res['demo patched'] = c
        res['out'] = o.strip().splitlines()[-1][:150] if o.strip() else ''
        for p in checks or [meta['property']]:
            r = sh('./check {0} quick'.format(p), cwd=os.path.dirname(here))
            res[p] = r.returncode
            open('/tmp/plant_{0}_{1}.log'.format(i, p), 'w').write(r.stdout)
    finally:
        sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')
    ok = res['demo clean'] == 0 and res['build'] == 0 and not res['tests lost'] and res['demo patched'] != 0
    print(i, 'COUNTS' if ok else 'BAD', 'CAUGHT' if res[(checks or [meta['property']])[0]] == 1 else 'MISSED', res)
    sys.stdout.flush()


if sys.argv[1] == 'make':
    for f in sys.argv[2:]:
        verify(make(f))
else:
    ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    for i in ids:
        verify(i)
