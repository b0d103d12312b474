#!/usr/bin/env python3
"""Mirror /repo sources with every floating literal L written kv::Real(L).

Needed because C++ allows one user conversion: with double re-bound to kv::Real,
`LinExpr e = 0.0` would need two.  Integer first arguments of the max2 macro are wrapped too.  Nothing else is changed; comments, strings and
preprocessor lines are left alone and line numbers are kept.
"""
import re, sys, os
TOK = re.compile(r'''
  (?P<skip>//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|^[ \t]*\#(?:[^\n\\]|\\.|\\\n)*)
 |(?P<num>(?<![\w.])(?:\d+\.\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+)[fFlL]?(?![\w]))
''', re.X | re.S | re.M)
def conv(text):
    text = TOK.sub(lambda m: m.group(0) if m.group('skip') is not None else 'kv::Real(%s)' % m.group('num'), text)
    # `max2(0, e)` expands to `0 >= e ? 0 : e`, whose two branches need one type
    return re.sub(r'\bmax2\(\s*(\d+)\s*,', r'max2(kv::Real(\1),', text)
def mirror(repo, out):
    n = 0
    for pkg in ('solver', 'solver_lqr', 'momentumopt'):
        for sub in ('include', 'src', 'tests'):
            for d, _, fs in os.walk(os.path.join(repo, pkg, sub)):
                for f in fs:
                    if not f.endswith(('.hpp', '.h', '.cpp')): continue
                    p = os.path.join(d, f); q = os.path.join(out, os.path.relpath(p, repo))
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    open(q, 'w').write('#line 1 "%s"\n' % p + conv(open(p, errors='replace').read())); n += 1
    return n
if __name__ == '__main__': print(mirror(sys.argv[1], sys.argv[2]))
