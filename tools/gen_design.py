#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (between the markers) from checks.py, the last
evidence and seeded/*/meta.json.  usage: gen_design.py"""
import sys, os, json, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import checks
out = ['| id | units: cases | functions under contract (quick tier) | obligations discharged | back ends | limits |', '|---|---|---|---|---|---|']
for p in sorted(checks.PROPS):
    P = checks.PROPS[p]; c = {}
    try: c = json.load(open(f'{V}/evidence/{p}.json'))['coverage']
    except Exception: pass
    be = c.get('backends') or {}
    out.append('| %s | %s | %s | %s | %s | %s |' % (p, ', '.join('`%s: %s`' % (u, r.replace('|', '\\|')) for u, r in P['cases']),
        '; '.join(c.get('functions_under_contract', [])).replace('|', '\\|'), '%s / %s' % (c.get('discharged'), c.get('obligations')),
        ', '.join('%s %s' % kv for kv in be.items()) if isinstance(be, dict) else ', '.join(map(str, be)), P['note'].replace('|', '\\|')))
t = open(V + '/DESIGN.md').read()
t = re.sub(r'(<!-- table -->\n).*?(<!-- /table -->)', lambda m: m.group(1) + '\n'.join(out) + '\n' + m.group(2), t, flags=re.S)
res = {}
if os.path.exists(V + '/tools/seed_results.json'): res = json.load(open(V + '/tools/seed_results.json'))
s = ['| seed | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); i = f.split('/')[-2]
    s.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '\\|'), m['needs'].replace('|', '\\|'), res.get(i, '')))
t = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda m: m.group(1) + '\n'.join(s) + '\n' + m.group(2), t, flags=re.S)
open(V + '/DESIGN.md', 'w').write(t)
