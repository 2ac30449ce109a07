#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/texts.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from texts import P, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification: obligations generated from the LLVM IR of the real sources on every run, discharged by z3 (loops by invariants); bounded parts labelled'
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        if not os.path.exists('%s/props/%s/prop.json' % (V, p['id'])) and p['id'] not in [n[0] for n in NA]: sys.exit('no check for ' + p['id'])
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': [{'property': a, 'reason': b} for a, b in NA]}
for p in P:
    if p['id'] in [n[0] for n in NA]: continue
    c = json.load(open('%s/props/%s/prop.json' % (V, p['id'])))
    note = p['note'] + (' Assumes: ' + '; '.join(c['assumptions']) + '.' if c.get('assumptions') else '') + (' Trusts: ' + '; '.join(c['trusted']) + '.' if c.get('trusted') else '') + \
        (' Bounded: ' + '; '.join(c['bounds']) + '.' if c.get('bounds') else '') + ' Also trusted: clang front end, the IR verifier in /verif/engine, z3.'
    m['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s quick' % p['id'], 'thorough_cmd': 'python3-vt check.py %s thorough' % p['id'],
                        'technique': p['technique'] or TECH, 'level': c.get('level', 'proof'), 'level_note': note})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties')
t = open(V + '/tools/DESIGN.in.md').read()
o = []
for p in P:
    o.append('### %s — %s\n' % (p['id'], p['title']))
    n = dict(NA).get(p['id'])
    if n: o.append('Not applicable: %s\n' % n); continue
    c = json.load(open('%s/props/%s/prop.json' % (V, p['id'])))
    src = ', '.join('`props/%s/%s`%s' % (p['id'], x['src'], ' (white box)' if x.get('whitebox') else '') for x in c['contracts'])
    o.append('%s Contracts: %s. Supplement: %s.' % (p['note'], src, ', '.join('`props/%s/%s`' % (p['id'], x['src']) for x in c.get('drivers', [])) or 'none'))
    for k, l in (('assumptions', 'Assumptions'), ('trusted', 'Trusted'), ('bounds', 'Bounded')):
        if c.get(k): o.append('%s: %s.' % (l, '; '.join(c[k])))
    o.append('Why tests cannot: %s\n' % p['why'])
s = []
res = json.load(open(V + '/tools/seeded_results.json')) if os.path.exists(V + '/tools/seeded_results.json') else {}
if os.path.isdir(V + '/seeded'):
    for d in sorted(os.listdir(V + '/seeded')):
        mf = V + '/seeded/%s/meta.json' % d
        if not os.path.exists(mf): continue
        j = json.load(open(mf))
        s.append('| %s | %s | %s | %s |' % (d, j['property'], j['what_it_breaks'].replace('|', '/'), res.get(d, 'not run')))
tab = '| change | property | what it breaks | result |\n|---|---|---|---|\n' + '\n'.join(s)
open(V + '/DESIGN.md', 'w').write(t.replace('@@PROPS@@', '\n'.join(o)).replace('@@SEEDED@@', tab))
