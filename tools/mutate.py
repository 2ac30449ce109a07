#!/usr/bin/env python3
"""mutate.py PROP N [seed]: development aid. Random small edits of the property's source files in a scratch copy; those that compile and pass the
existing tests are given to the property's check (driver first, then the whole check).  Prints the ones the check misses.  Not used by any check."""
import json, os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid, N = sys.argv[1], int(sys.argv[2]); seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
rnd = random.Random('%s%d' % (pid, seed))
T = '/tmp/w/mut_' + pid
def sh(c, t=900, **k):
    try: return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, **k)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 124, '', 'timeout')
shutil.rmtree(T, ignore_errors=True)
sh('mkdir -p /tmp/w; git -C /repo archive --prefix=mut_%s/ HEAD | tar x -C /tmp/w' % pid)
p = [json.loads(l) for l in open(V + '/properties.jsonl')]
files = [x for x in p if x['id'] == pid][0]['anchors']['files']
files = [f for f in files if os.path.exists(T + '/' + f)]
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' << ', ' >> '), (r' >> ', ' << '), (r' & ', ' | '), (r' \| ', ' & '), (r' \|= ', ' &= '), (r' \+= ', ' -= '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b8\b', '4'), (r'\b64\b', '32'), (r'\bif \((.*)\) \{', r'if (!(\1)) {'), (r'\bif \((.*)\) return', r'if (false && (\1)) return'), (r'~', ''), (r'!', ''), (r'uint64_t', 'uint32_t'), (r'int64_t', 'int32_t'), (r'\bint8_t', 'uint8_t'), (r'\buint16_t', 'int16_t'), (r'min\(', 'max('), (r'max\(', 'min('), (r'\+\+', '--'), (r'(\w+)\+\+', r'\1 += 2')]
sites = []
for f in files:
    code = False
    for i, l in enumerate(open(T + '/' + f)):
        s = l.split('//')[0].rstrip()
        if not s.strip() or s.lstrip().startswith(('#', '*', 'namespace', 'using', 'template', 'class', 'struct', 'static_assert')): continue
        if not l.startswith('  '): continue
        for k, (a, b) in enumerate(OPS):
            for m in re.finditer(a, s): sites.append((f, i, 'op', k, m.start()))
        if s.strip().endswith(';') and re.match(r'\s+[\w\.\->\[\]\*]+(\(.*\)| [-+|&]?= .*|\+\+|--);$', s) and not re.match(r'\s+(auto|int|bool|return|const|delete|uint|size_t)', s): sites.append((f, i, 'drop', 0, 0))
        if s.strip() in ('continue;', 'break;', 'return;'): sites.append((f, i, 'drop', 0, 0))
rnd.shuffle(sites)
B = T + '/_build'
def build():
    r = sh('cmake -S /opt/vp/cmake -B %s -G Ninja -DMPACT_ROOT=%s -DCMAKE_CXX_COMPILER=/usr/bin/clang++-18 -DCMAKE_CXX_FLAGS="-O1 -g" -DFETCHCONTENT_FULLY_DISCONNECTED=ON && ninja -C %s -j4' % (B, T, B))
    return r.returncode == 0
def tests():
    r = sh('timeout 100 ctest --test-dir %s -j4' % B, 120)
    return r.returncode == 0, r.stdout
assert build()
assert tests()[0], tests()[1][-500:]
done = 0; caught = missed = 0
env = dict(os.environ, VP_REPO=T)
for f, i, kind, k, pos in sites:
    if done >= N: break
    src = open(T + '/' + f).read(); ls = src.split('\n'); l = ls[i]
    if kind == 'drop': n = re.sub(r'\S.*$', ';', l, 1)
    else:
        a, b = OPS[k]; m = re.compile(a).search(l, pos)
        if not m: continue
        n = l[:m.start()] + m.expand(b) + l[m.end():]
    if n == l: continue
    ls[i] = n
    open(T + '/' + f, 'w').write('\n'.join(ls))
    try:
        if not build(): continue
        ok, _ = tests()
        if not ok: continue
        d = sh('VP_ONLY=driver python3-vt %s/check.py %s quick' % (V, pid), env=env)
        if 'does not build' in d.stdout: continue
        done += 1
        how = 'driver'
        if d.returncode != 1:
            d = sh('python3-vt %s/check.py %s quick' % (V, pid), env=env); how = 'proof'
        und = len(re.findall('^undecided', d.stdout, re.M))
        if d.returncode == 1: caught += 1; print('caught(%s) %s:%d %s' % (how, f.split('/')[-1], i + 1, n.strip()), flush=True)
        else: missed += 1; print('MISSED rc %d undecided %d %s:%d\n   - %s\n   + %s' % (d.returncode, und, f.split('/')[-1], i + 1, l.strip(), n.strip()), flush=True)
    finally: open(T + '/' + f, 'w').write(src)
print('%s: %d caught, %d missed' % (pid, caught, missed))
shutil.rmtree(T, ignore_errors=True)
