#!/usr/bin/env python3
"""Makes one planted bug: mkseed.py SPEC.py   (SPEC defines id, property, edits=[(file, old, new[, nth])], demo (C++ or Python source), needs, breaks)
   Writes /verif/seeded/<id>/ and validates it on /repo: demo passes clean, patch applies, build + stable tests pass, demo fails; then runs the property's check."""
import sys, os, subprocess, json, importlib.util, textwrap, time
R='/repo'
CXX='''#!/bin/bash
# run with cwd /repo after the build: exit 0 if the behaviour holds
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT; export PYTHONPYCACHEPREFIX="$t/pyc"
%s
'''
SOLVER='''for f in "$d/demo.cpp" $(ls solver/src/solver/interface/*.cpp solver/src/solver/optimizer/*.cpp | grep -v Lbfgs); do
  g++ -O1 -w -fpermissive -fno-access-control -std=c++17 -include iostream -DEIGEN_NO_STATIC_ASSERT -Isolver/include -I/usr/include/eigen3 -c "$f" -o "$t/$(basename "$f").o" || touch "$t/failed" &
done; wait; [ -e "$t/failed" ] && exit 2
g++ "$t"/*.o -lyaml-cpp -o "$t/demo" || exit 2
cd "$t" && timeout 100 ./demo'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main(path, validate=True, check=True):
    ns={}; exec(open(path).read(), ns)
    for s in ns['SEEDS']:
        if len(sys.argv)>2 and not any(s['id']==a for a in sys.argv[2:]): continue
        assert sh(f'git -C {R} status --porcelain --untracked-files=no').stdout.strip()=='' , 'dirty repo'
        D=f"/verif/seeded/{s['id']}"; os.makedirs(D, exist_ok=True)
        for e in s['edits']:
            f,old,new=e[:3]; t=open(f'{R}/{f}',newline='').read(); crlf='\r\n' in t; old,new=[v.replace('\n','\r\n') if crlf else v for v in (old,new)]; n=t.count(old)
            assert n>=1, (s['id'], f, 'text not found'); nth=e[3] if len(e)>3 else None
            assert n==1 or nth is not None, (s['id'], f, f'{n} occurrences')
            if nth is None: t=t.replace(old,new)
            else:
                i=-1
                for _ in range(nth+1): i=t.index(old,i+1)
                t=t[:i]+new+t[i+len(old):]
            open(f'{R}/{f}','w',newline='').write(t)
        open(f'{D}/patch.diff','wb').write(subprocess.run(['git','-C',R,'diff'],stdout=subprocess.PIPE).stdout); sh(f'git -C {R} checkout -- .')
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(f'{D}/meta.json','w'), indent=1)
        for name,src in s.get('files',{}).items(): open(f'{D}/{name}','w').write(textwrap.dedent(src))
        cmd=s.get('cmd', SOLVER); open(f'{D}/demo.sh','w').write(CXX%cmd); os.chmod(f'{D}/demo.sh',0o755)
        st=[]
        def step(n,c,ok):
            t0=time.time(); r=sh(c,cwd=R); g=ok(r); st.append(g); print(f"  {s['id']}: {n}: {'ok' if g else 'BAD'} (rc={r.returncode}, {time.time()-t0:.0f}s)", flush=True)
            if not g: print(textwrap.indent(r.stdout[-1500:],'    '))
            return r
        step('demo clean', f'bash {D}/demo.sh', lambda r:r.returncode==0)
        try:
            step('apply', f'git -C {R} apply {D}/patch.diff', lambda r:r.returncode==0)
            step('build+tests', 'bash /opt/vp/test.sh /tmp/seedt.json', lambda r:json.load(open('/tmp/seedt.json'))['failed']==[] and len(json.load(open('/tmp/seedt.json'))['passed'])>=14)
            step('demo patched', f'bash {D}/demo.sh', lambda r:r.returncode not in (0,))
            r=sh(f"python3 /verif/kvrun.py {s['property']}", cwd='/verif'); v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(f"  {s['id']}: CHECK {'CAUGHT' if r.returncode==1 and v else 'MISSED rc=%d'%r.returncode}: {v[0] if v else r.stdout[-300:]}", flush=True)
        finally: sh(f'git -C {R} checkout -- .')
        print(('SEED OK ' if all(st) else 'SEED BAD ')+s['id'], flush=True)
    sh('bash /opt/vp/build.sh')
main(sys.argv[1])
