#!/usr/bin/env python3
"""plant.py NAME [--nocheck]: takes the uncommitted change in /repo as the planted bug NAME
(seeded/NAME/ already holds demo.sh and meta.json), or with an existing patch.diff
and a clean tree re-validates it.  Builds, runs the tests and the demonstration
with and without the change, runs the property's check against it, and leaves
/repo clean."""
import json, os, subprocess, sys, shutil, tempfile
V, R = '/verif', '/repo'
name = sys.argv[1]
d = V + '/seeded/' + name
def run(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def git(c): return run('git -C /repo ' + c).stdout
diff = git('diff')
if diff.strip():
    open(d + '/patch.diff', 'w').write(diff)
    git('checkout -- .')
def clean(): git('checkout -- .')
def demo():
    t = tempfile.mkdtemp()
    for f in os.listdir(d):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json': shutil.copy(d + '/' + f, t)
    try:
        r = run('timeout 280 bash %s/demo.sh' % t, cwd=R)
    finally:
        shutil.rmtree(t)
    return r
meta = json.load(open(d + '/meta.json'))
props = [meta['property']] + sys.argv[2:]
props = [p for p in props if not p.startswith('--')]
try:
    a = run('git -C /repo apply %s/patch.diff' % d)
    if a.returncode: sys.exit('does not apply: ' + a.stdout)
    b = run('bash /opt/vp/build.sh')
    if b.returncode: sys.exit('BUILD FAILS\n' + b.stdout[-2000:])
    t = run('bash /opt/vp/test.sh /tmp/plant.json')
    j = json.load(open('/tmp/plant.json')); base = json.load(open('/opt/vp/BASELINE.json'))
    ok = t.stdout.strip().splitlines()[-1:]
    print('tests:', ok)
    tests_ok = bool(ok) and ok[0].startswith('92 passed') and '0 failed' in ok[0]
    r = demo(); print('demo with the bug: rc', r.returncode, r.stdout.strip()[-300:])
    bad = r.returncode
    if '--nocheck' not in sys.argv:
        for p in props:
            c = run('VERIF_SEED=1 python3 /verif/check.py %s --tier quick' % p)
            print('check', p, 'rc', c.returncode, '\n'.join(l for l in c.stdout.splitlines() if 'VIOLATION' in l)[:300])
            print('\n'.join(c.stdout.splitlines()[-12:])[:1500])
finally:
    clean()
run('bash /opt/vp/build.sh')
r = demo(); print('demo without: rc', r.returncode, r.stdout.strip()[-300:])
print('COUNTS' if bad and tests_ok and r.returncode == 0 else 'DOES NOT COUNT')
