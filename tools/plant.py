"""plant.py FILE...: each FILE is a Python file defining id, prop, edits=[(path, old, new)], demo (Python source), needs, breaks.
Applies the change to /repo, checks that it builds, passes the stable tests and that the demo distinguishes it, runs the
property's check against it, undoes it, and stores the result under /verif/seeded/<id>/."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BASE = json.load(open('/opt/vp/BASELINE.json'))
STABLE = BASE if isinstance(BASE, list) else BASE.get('stable') or BASE.get('tests') or BASE.get('passing')


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def stable():
    sh('bash /opt/vp/test.sh /tmp/plant_out.json')
    r = json.load(open('/tmp/plant_out.json'))
    p = set(r['passed'])
    return [x for x in STABLE if x not in p]


def plant(spec):
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(V, 'seeded', g['id'])
    assert sh('git -C %s status --porcelain' % REPO).stdout == ''
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'demo.py'), 'w') as f:
        f.write(g['demo'].lstrip('\n'))
    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write('#!/bin/bash\n# run with cwd = the repository\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                'exec timeout 200 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    clean = sh('bash %s/demo.sh' % d, cwd=REPO)
    try:
        for path, old, new in g['edits']:
            p = os.path.join(REPO, path)
            s = open(p).read()
            assert s.count(old) == 1, (path, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C %s diff' % REPO).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        b = sh('bash /opt/vp/build.sh')
        dirty = sh('bash %s/demo.sh' % d, cwd=REPO)
        missing = stable() if '--fast' not in sys.argv else []
        chk = sh('python3 check.py %s' % g['prop'], cwd=V, timeout=1000)
        # is anything of ours changed?
        fixed = set()
        fx = sh('git -C %s diff -U0 0fd6050 HEAD' % REPO).stdout
        added = set(l[1:].strip() for l in fx.splitlines() if l.startswith('+') and not l.startswith('+++'))
        rem = [l[1:].strip() for l in diff.splitlines() if l.startswith('-') and not l.startswith('---') and l[1:].strip()]
        ours = [l for l in rem if l in added]
    finally:
        sh('git -C %s checkout -- .' % REPO)
    ok = clean.returncode == 0 and dirty.returncode != 0 and b.returncode == 0 and not missing
    print('%s %s: %s demo %d/%d build %d missing %s | check %d %s%s' % (
        g['id'], g['prop'], 'COUNTS' if ok else 'DOES NOT COUNT', clean.returncode, dirty.returncode, b.returncode, missing[:3],
        chk.returncode, 'CAUGHT' if chk.returncode == 1 else 'MISSED', (' (changes lines of fix commits: %s)' % ours[:2]) if ours else ''))
    if not ok:
        print((clean.stdout if clean.returncode else dirty.stdout)[-600:])
    if chk.returncode == 1:
        print('   ', chk.stdout.splitlines()[0][:220])


for s in sys.argv[1:]:
    if not s.startswith('--'):
        plant(s)
