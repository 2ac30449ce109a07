"""mkseed.py: helper to write a planted change: mk(id, prop, file, [(old,new)...], needs, breaks, demo_cc, sources)"""
import os, subprocess, json, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the repository.  Exit 0 when the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
clang++-18 -std=c++17 -include cstdint -O1 -g -w %(flags)s%(inc)s -I "$PWD" "$d/demo.cc" %(src)s -o "$t/demo" -Wl,--start-group /usr/lib/x86_64-linux-gnu/libabsl_*.a -Wl,--end-group -lpthread || exit 3
ASAN_OPTIONS=detect_leaks=0 timeout 100 "$t/demo"
'''
def mk(id, prop, edits, needs, breaks, demo, sources=(), shim=False, flags=''):
    d = V + '/seeded/' + id; os.makedirs(d, exist_ok=True); out = ''
    by = {}
    for f, o, n in edits: by.setdefault(f, []).append((o, n))
    for f, l in by.items():
        s = open('/repo/' + f).read(); t = s
        for o, n in l:
            assert t.count(o) == 1, (id, f, o, t.count(o)); t = t.replace(o, n)
        out += ''.join(x if x.endswith('\n') else x + '\n' for x in difflib.unified_diff(s.splitlines(True), t.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo.cc', 'w').write(demo)
    if shim:
        subprocess.run(['cp', '-r', V + '/shim', d + '/'])
    open(d + '/demo.sh', 'w').write(DEMO % {'src': ' '.join(sources), 'inc': '-I "$d/shim"' if shim else '', 'flags': flags + ' ' if flags else ''})
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
