#!/usr/bin/env python3
"""Collects "caught by" from mkseed logs into tools/seed_results.json.  usage: seed_results.py LOG..."""
import sys, re, json, os
p = os.path.dirname(os.path.abspath(__file__)) + '/seed_results.json'; r = json.load(open(p)) if os.path.exists(p) else {}
for f in sys.argv[1:]:
    for i, c in re.findall(r'^\s*(\w+): CHECK CAUGHT: VIOLATION \S+ replay=\S*replay_(\S+)\.txt', open(f).read(), flags=re.M): r[i] = c
json.dump(dict(sorted(r.items())), open(p, 'w'), indent=0)
