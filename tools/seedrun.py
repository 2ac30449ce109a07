#!/usr/bin/env python3
"""seedrun.py [ID...]: for each planted change: apply to /repo, build, run the stable tests, its demo with and without, its property's check; undo.  Writes tools/seeded_results.json."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RF = V + '/tools/seeded_results.json'
res = json.load(open(RF)) if os.path.exists(RF) else {}
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty /repo'
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable_tests']) if 'stable_tests' in json.load(open('/opt/vp/BASELINE.json')) else None
def tests():
    if sh('bash /opt/vp/build.sh').returncode: return 'does not build'
    sh('bash /opt/vp/test.sh /tmp/w/t.json'); j = json.load(open('/tmp/w/t.json'))
    f = j.get('failed', [])
    return 'tests fail: %s' % f[:3] if f else ''
for i in ids:
    d = '%s/seeded/%s' % (V, i); m = json.load(open(d + '/meta.json'))
    r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
    a = sh('git -C /repo apply %s/patch.diff' % d)
    if a.returncode: print(i, 'patch does not apply', a.stderr); continue
    try:
        t = tests(); r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
        c = sh('python3-vt check.py %s quick' % m['property'], cwd=V)
    finally: sh('git -C /repo checkout -- .')
    vl = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
    out = ('caught: ' + ('proof obligation, no failing input' if 'no-failing' in vl[0] else 'with failing input')) if c.returncode == 1 and vl else 'MISSED (rc %d)' % c.returncode
    fo = [l for l in c.stdout.split('\n') if l.startswith('failed obligation')]
    ok = not t and r0.returncode == 0 and r1.returncode != 0
    print(i, m['property'], 'VALID' if ok else 'INVALID (%s, demo clean %d, demo patched %d)' % (t, r0.returncode, r1.returncode), '|', out, '|', fo[0][:200] if fo else c.stdout[-300:])
    if not ok: print(r0.stdout[-500:], r0.stderr[-500:])
    res[i] = out if ok else 'invalid'
    json.dump(res, open(RF, 'w'), indent=1, sort_keys=True)
sh('bash /opt/vp/build.sh')
