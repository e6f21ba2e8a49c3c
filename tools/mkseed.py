#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines SEEDS=[dict(id,prop,pkg,edits=[(file,old,new)],demo,needs,breaks)].
Confirms each change in a scratch copy (builds, stable tests pass, demo fails with it and passes without) and
writes seeded/<id>/."""
import sys,os,subprocess,shutil,json,runpy
spec=runpy.run_path(sys.argv[1]); only=set(sys.argv[2:])
DEMO='''#!/bin/bash
# cwd: the repository; exit 0 when the property holds
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d)
export GO111MODULE=on GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
printf '{"Replace":{"%%s/%s":"%%s/demo_test.go.txt"}}' "$R" "$D" > "$T/o.json"
timeout 120 go test -overlay "$T/o.json" -vet=off -run '^TestDemo' -count=1 -timeout 100s ./%s
rc=$?
rm -rf "$T"
exit $rc
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for s in spec['SEEDS']:
    if only and s['id'] not in only: continue
    W='/tmp/seedwork'; shutil.rmtree(W,ignore_errors=True); shutil.copytree('/repo',W)
    out='/tmp/seedout/'+s['id']; shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    pkg=s.get('pkg','')
    open(out+'/demo_test.go.txt','w').write(s['demo'])
    open(out+'/demo.sh','w').write(DEMO%((pkg+'/' if pkg else '')+'zz_demo_test.go',pkg))
    r0=sh('bash '+out+'/demo.sh',cwd=W)
    if r0.returncode: print(s['id'],'DEMO FAILS ON CLEAN\n',r0.stdout[-1500:]); continue
    bad=False
    for f,o,n in s['edits']:
        t=open(W+'/'+f).read()
        if t.count(o)!=1: print(s['id'],'edit count',t.count(o),f,repr(o)); bad=True; break
        open(W+'/'+f,'w').write(t.replace(o,n))
    if bad: continue
    b=sh('go build ./... && go vet ./...',cwd=W)
    if b.returncode: print(s['id'],'BUILD',b.stdout[-800:])
    t=sh('go test -count=1 -json ./...',cwd=W).stdout
    passed=set()
    for l in t.splitlines():
        try: d=json.loads(l)
        except Exception: continue
        if d.get('Action')=='pass' and d.get('Test'): passed.add(d['Package']+'/'+d['Test'])
    miss=base-passed
    if miss: print(s['id'],'TESTS FAIL',miss); continue
    r1=sh('bash '+out+'/demo.sh',cwd=W)
    if r1.returncode==0: print(s['id'],'DEMO PASSES WITH CHANGE'); continue
    d=sh('git diff',cwd=W).stdout
    open(out+'/patch.diff','w').write(d)
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(out+'/meta.json','w'),indent=1)
    dst='/verif/seeded/'+s['id']; shutil.rmtree(dst,ignore_errors=True); shutil.copytree(out,dst)
    print(s['id'],'ok:',[l for l in r1.stdout.splitlines() if 'demo' in l or 'panic' in l][:2])
    shutil.rmtree(W,ignore_errors=True)
