#!/usr/bin/env python3
"""mut1.py PROPS FILE 'old' 'new': development aid: replace the (single) text in a scratch copy of /repo and run the drivers, then the checks of the properties."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, f, a, b = sys.argv[1:5]
nth = int(sys.argv[5]) if len(sys.argv) > 5 else None
T = '/tmp/w/mut1_%d' % os.getpid()
os.makedirs(T)
subprocess.run('git -C /repo archive HEAD | tar x -C %s' % T, shell=True, check=True)
s = open(T + '/' + f).read()
if nth is None: assert s.count(a) == 1, s.count(a); s = s.replace(a, b)
else:
    i = -1
    for _ in range(nth + 1): i = s.index(a, i + 1)
    s = s[:i] + b + s[i + len(a):]
open(T + '/' + f, 'w').write(s)
for p in props.split(','):
    for only in ('driver', ''):
        e = dict(os.environ, VP_REPO=T)
        if only: e['VP_ONLY'] = only
        r = subprocess.run(['python3-vt', V + '/check.py', p, 'quick'], env=e, capture_output=True, text=True)
        if r.returncode: print(p, only or 'proof', r.returncode, r.stdout[-300:].replace('\n', '|')); break
    else: print(p, 'MISSED', r.stdout[-200:].replace('\n', '|'))
shutil.rmtree(T)
