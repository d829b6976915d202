#!/usr/bin/env python3
"""linecov.py [header-substring...]: code lines of /repo's sources that are in no harness's reachable IR (after dead code removal).
A development aid, used to find members no harness instantiates; no check uses it."""
import sys, os, re, glob, subprocess, tempfile, shutil, collections, concurrent.futures as cf
sys.path.insert(0,'/verif'); import check as C
tmp=tempfile.mkdtemp(); ov=C.overlay(tmp); cov=collections.defaultdict(set)
jobs=[]
for f in sorted(glob.glob('/verif/harness/*.cpp')):
    h=C.parse(f)
    for v in (h['variants'] or [None]): jobs.append((h,v))
def one(j):
    h,v=j; d=tempfile.mkdtemp(dir=tmp); defs=['-D'+x for x in h['def']['quick']]+(['-DVARIANT='+v] if v is not None else [])
    inc=['-I'+ov,'-I/verif/rt','-I/verif/harness','-I'+C.REPO]; shim=['-isystem','/verif/rt/shim'] if h['shim'] else []
    pre=['-include','/verif/rt/prelude_shim.h' if h['shim'] else '/verif/rt/prelude.h']; bcs=[]
    for s,c in [(h['src'],False)]+[(C.REPO+'/bss-util/'+s,s.endswith('.c')) for s in h['sources']]:
        o=d+'/'+os.path.basename(s)+'.bc'; cmd=[C.CLANG]+C.IRF+([] if c else C.CXXF)+defs+([] if c else shim)+inc+([] if c else pre)+[s,'-o',o]
        rc,e=C.sh(cmd,300)
        for _ in range(8):
            if rc==0 or not C.autofix(e,ov): break
            rc,e=C.sh(cmd,300)
        if rc: return {}
        bcs.append(o)
    C.sh([C.LINK]+bcs+['-o',d+'/l.bc']); C.sh([C.OPT,'-passes=internalize,globaldce','-internalize-public-api-list=main',d+'/l.bc','-S','-o',d+'/o.ll'])
    t=open(d+'/o.ll',errors='replace').read(); files=dict(re.findall(r'^(!\d+) = !DIFile\(filename: "([^"]+)"',t,re.M)); sc={}
    for i,b in re.findall(r'^(!\d+) = (?:distinct )?!DI(?:Subprogram|LexicalBlock|LexicalBlockFile)\((.*)\)$',t,re.M):
        m=re.search(r'file: (!\d+)',b); s=re.search(r'scope: (!\d+)',b); sc[i]=(files.get(m.group(1)) if m else None, s.group(1) if s else None)
    r=collections.defaultdict(set)
    for l,s in re.findall(r'!DILocation\(line: (\d+), (?:column: \d+, )?scope: (!\d+)',t):
        n=0
        while s and n<50 and not sc.get(s,(None,))[0]: s=sc.get(s,(None,None))[1]; n+=1
        f=sc.get(s,(None,))[0]
        if f: r[os.path.basename(f)].add(int(l))
    shutil.rmtree(d); return r
with cf.ThreadPoolExecutor(8) as ex:
    for r in ex.map(one,jobs):
        for f,l in r.items(): cov[f]|=l
for p in sorted(glob.glob(C.REPO+'/include/bss-util/*.h')+glob.glob(C.REPO+'/bss-util/*.c*')):
    b=os.path.basename(p)
    if sys.argv[1:] and not any(a in b for a in sys.argv[1:]): continue
    if b not in cov: print('==',b,'NOT COVERED AT ALL'); continue
    print('==',b,len(cov[b]))
    cm=False
    for i,l in enumerate(open(p,encoding='latin-1'),1):
        l=l.rstrip(); s=l.strip()
        if '/*' in s and '*/' not in s: cm=True
        if '*/' in s: cm=False; continue
        if cm or i in cov[b] or s.startswith('//') or s.startswith('#') or not s: continue
        if ('{' in s and '}' in s and '(' in s and ';' in s) or (s.endswith(';') and re.match(r'(return|[\w>.\-\[\]]+\s*[-+|&^]?=|\w[\w:<>, ]*\()',s) and not re.match(r'(using|typedef|static_assert|inline|template|virtual|friend|explicit)',s)): print('%5d %s'%(i,l[:170]))
shutil.rmtree(tmp)
