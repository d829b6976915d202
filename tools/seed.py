#!/usr/bin/env python3
"""seed.py SPEC.py [id...]: create and verify planted bugs under /verif/seeded from a spec file that calls bug(...).
Applies each edit to /repo, builds, runs the tests, the demonstration and the property's quick check, and undoes it."""
import sys, os, subprocess, json, re
R='/repo'; SD='/verif/seeded'
DEMO='''#!/bin/bash
# exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 3; trap 'rm -rf "$T"' EXIT
g++-10 -std=c++17 -w -g -include stdlib.h %s -I include "$D/demo.cpp" -o "$T/demo" -Lbin -lbss-util -lpthread -lrt -Wl,-rpath,"$PWD/bin" >"$T/log" 2>&1 || { cat "$T/log"; exit 2; }
cd "$T" && timeout 60 ./demo
'''
bugs=[]
def bug(id, prop, edits, needs, breaks, demo, flags='-fsanitize=address -mcx16'): bugs.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,flags=flags))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def edit(f,a,b,n=1):
    p=R+'/'+f; s=open(p,'rb').read(); a=a.encode('latin-1'); b=b.encode('latin-1')
    if b'\r\n' in s: a=a.replace(b'\n',b'\r\n'); b=b.replace(b'\n',b'\r\n')
    assert s.count(a)==n, (f,s.count(a),a); open(p,'wb').write(s.replace(a,b))
def revert(): sh('git -C /repo checkout -- .')
def tests():
    r=sh('bash /opt/vp/test.sh /tmp/seed_t.json')
    try: t=json.load(open('/tmp/seed_t.json'))
    except Exception: return 'no result'
    b=json.load(open('/opt/vp/BASELINE.json')); l=b.get('stable') or b.get('passed') or b
    miss=[x for x in l if x not in t['passed']]
    return 'BUILD FAILED '+r.stdout.decode(errors='replace')[-600:] if not t['passed'] else (('FAILS '+str(miss)) if miss else 'ok')
exec(open(sys.argv[1]).read())
only=sys.argv[2:]
for b in bugs:
    if only and b['id'] not in only: continue
    assert not sh('git -C /repo status --porcelain --untracked-files=no').stdout, 'repo dirty'
    d=SD+'/'+b['id']; os.makedirs(d,exist_ok=True)
    open(d+'/demo.cpp','w').write(b['demo']); open(d+'/demo.sh','w').write(DEMO%b['flags']); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    lib=any(not e[0].endswith('.h') for e in b['edits'])
    clean=sh('bash %s/demo.sh'%d,cwd=R)
    try:
        for e in b['edits']: edit(*e)
        open(d+'/patch.diff','wb').write(sh('git -C /repo diff').stdout)
        rm=[l[1:].strip() for l in open(d+'/patch.diff',errors='replace') if l.startswith('-') and not l.startswith('---')]
        base=sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.decode().split()[0]; org=''.join(sh('git -C /repo show %s:%s'%(base,e[0])).stdout.decode(errors='replace') for e in b['edits']); new=[x for x in rm if x not in org]
        if new: print('NOT ORIGINAL',b['id'],new[:2])
        t=tests(); dem=sh('bash %s/demo.sh'%d,cwd=R)
        c=sh('timeout 900 python3 /verif/check.py %s'%b['prop']); v=[l for l in c.stdout.decode(errors='replace').splitlines() if 'VIOLATION' in l or 'BUILD' in l]
    finally: revert()
    if lib: sh('bash /opt/vp/build.sh')
    ok = clean.returncode==0 and t=='ok' and dem.returncode not in (0,2,3)
    print('%-28s %s demo clean=%d seeded=%d tests=%s check=%d %s'%(b['id'],'VALID' if ok else 'INVALID',clean.returncode,dem.returncode,t,c.returncode,(v[0][:160] if v else '')),flush=True)
    if clean.returncode: print(clean.stdout.decode(errors='replace')[-1500:])
    if dem.returncode==2: print(dem.stdout.decode(errors='replace')[-1500:])
