#!/usr/bin/env python3
# dev helper: (re)generates and validates /verif/seeded/<id> from tools/seeds/defs_*.py
# usage: mk.py [id...]
import os,sys,subprocess,json,shutil,glob
H=os.path.dirname(os.path.abspath(__file__)); OUT='/verif/seeded'; W='/tmp/seedw'
S={}
def seed(id,prop,edits,demo,needs,breaks,pkg='.',common='psd'):
    S[id]=dict(prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,pkg=pkg,common=common)
def T(b): return 'func TestZZDemo(t *testing.T) {\n'+b.strip('\n')+'\n}\n'
for f in sorted(glob.glob(H+'/defs_*.py')): exec(open(f).read())
SH='''#!/bin/bash
# exit 0 when the behaviour holds, nonzero when it is broken
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off
R=$(pwd)
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
PKG=@PKG@
printf '{"Replace":{"%s":"%s"}}' "$R/$PKG/zz_demo_test.go" "$D/demo_test.go" > "$T/ov.json"
timeout 250 go test -vet=off -count=1 -overlay "$T/ov.json" -run '^TestZZDemo$' -v "./$PKG" > "$T/out" 2>&1
c=$?
tail -n 30 "$T/out"
grep -q '^=== RUN *TestZZDemo' "$T/out" || exit 2
exit $c
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
ids=sys.argv[1:] or list(S)
for i in ids:
    s=S[i]; d=f'{OUT}/{i}'
    shutil.rmtree(W,ignore_errors=True); sh(f'cp -a /repo {W}'); sh('git checkout -q -- .',cwd=W)
    bad=False
    for f,o,n in s['edits']:
        t=open(f'{W}/{f}').read()
        k=1
        if isinstance(o,tuple): o,k=o
        c=t.count(o)
        if c==0 or (k==1 and c!=1 and not isinstance(s['edits'],tuple)):
            print(i,'EDIT',f,'matches',c,repr(o[:50])); bad=True; break
        if k=='all': t=t.replace(o,n)
        else:
            p=-1
            for _ in range(k): p=t.index(o,p+1)
            t=t[:p]+n+t[p+len(o):]
        open(f'{W}/{f}','w').write(t)
    if bad: continue
    os.makedirs(d,exist_ok=True)
    diff=sh('git diff',cwd=W).stdout
    open(d+'/patch.diff','w').write(diff)
    com=open(f"{H}/common_{s['common']}.go.txt").read() if s['common'] else ''
    open(d+'/demo_test.go','w').write(com+s['demo'].strip('\n')+'\n')
    open(d+'/demo.sh','w').write(SH.replace('@PKG@',s['pkg'])); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    # originals: removed lines must exist in base
    base={}
    ok=False
    for l in diff.splitlines():
        if l.startswith('--- a/'): cur=l[6:]; base[cur]=set(sh(f'git show 835850b:{cur}',cwd='/repo').stdout.splitlines())
        elif l.startswith('-') and not l.startswith('---') and l[1:].strip():
            if l[1:] in base[cur]: ok=True
            else: print(i,'not an original line:',l)
    # demo on clean
    r0=sh(f'bash {d}/demo.sh',cwd='/repo')
    r1=sh(f'bash {d}/demo.sh',cwd=W)
    # stable tests in mutated copy
    env='. /opt/vp/env.sh; cd '+W+'; rm -rf output blend/output; mkdir -p output; '
    b=sh(f'bash -c "{env} go build \\$PKGS"')
    t=sh(f'bash -c "{env} go test -json -vet=off -count=1 -timeout 10m \\$PKGS > {W}.log; python3 /opt/vp/results.py {W}.json gojson:{W}.log"')
    stable=json.load(open('/opt/vp/BASELINE.json'))['stable']; res=json.load(open(W+'.json'))
    pas=set()
    for k,v in res.items():
        if isinstance(v,list) and k.startswith('pass'): pas|=set(v)
        if isinstance(v,dict):
            for a,q in v.items():
                if str(q).startswith('pass') : pas.add(a)
    names=stable if isinstance(stable,list) else list(stable)
    miss=[x for x in names if x not in pas]
    st='OK' if r0.returncode==0 and r1.returncode==1 and b.returncode==0 and not miss and ok else 'BAD'
    print(i,st,'clean',r0.returncode,'patched',r1.returncode,'build',b.returncode,'stable-missing',len(miss),miss[:3])
    if st=='BAD':
        print(r0.stdout[-800:] if r0.returncode else '',r1.stdout[-500:] if r1.returncode!=1 else '',b.stderr[-500:])
shutil.rmtree(W,ignore_errors=True)
