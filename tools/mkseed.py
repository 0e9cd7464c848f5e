#!/usr/bin/env python3
"""mkseed.py SPEC.py: builds and confirms planted bugs. SPEC defines SEEDS = [dict(id, property, edits=[(file, old, new)],
prog | (reject program) , expect, needs, breaks)]. A seed is kept only if it builds, passes the stable tests, and its demo passes
without and fails with the change. /repo is restored afterwards."""
import sys,os,subprocess,json,shutil
V='/verif';R='/repo'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,errors="replace",**k)
DEMO_RUN='''#!/bin/bash
# Compiles prog.clara with the compiler built from the current tree and compares what it prints.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOWORK=off
go build -o "$W/clarac" . || exit 1
export TMPDIR=$W
cd "$W" || exit 1
timeout 60 ./clarac -install "$R/install" -prog "$D/prog.clara" -out "$W" > log 2>&1 || { tail -20 log; exit 1; }
timeout 60 ./prog %(args)s > out 2> err; rc=$?
if [ $rc -ne %(rc)d ]; then echo "exit status $rc"; exit 1; fi
diff -u "$D/expected.txt" out
'''
DEMO_REJ='''#!/bin/bash
# prog.clara is not a valid program: the compiler built from the current tree must report an error (not crash, not accept).
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOWORK=off
go build -o "$W/clarac" . || exit 1
export TMPDIR=$W
cd "$W" || exit 1
timeout 60 ./clarac -install "$R/install" -prog "$D/prog.clara" -out "$W" > log 2>&1; rc=$?
if [ $rc -eq 1 ] && grep -q "^Errors" log; then exit 0; fi
echo "not rejected: status $rc"; exit 1
'''
DEMO_GO='''#!/bin/bash
# Runs an in-package Go test against the current tree.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOWORK=off
cp "$D/demo_go.txt" "$W/zz_demo_test.go"
echo "{\\"Replace\\": {\\"$R/%(pkg)s/zz_demo_test.go\\": \\"$W/zz_demo_test.go\\"}}" > "$W/o.json"
timeout 120 go test -overlay "$W/o.json" -vet=off -count=1 -run TestZZDemo ./%(pkg)s
'''
ns={};exec(open(sys.argv[1]).read(),ns)
only=sys.argv[2:]
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
assert sh('git -C /repo status --porcelain').stdout=='' , 'repo dirty'
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    d=f"{V}/seeded/{s['id']}"
    try:
        for f,old,new in s['edits']:
            t=open(f'{R}/{f}').read()
            if t.count(old)!=1: raise Exception(f"{f}: {t.count(old)} matches")
            open(f'{R}/{f}','w').write(t.replace(old,new))
        patch=sh('git -C /repo diff').stdout
        tmp=f"/tmp/seed_{s['id']}"; shutil.rmtree(tmp,ignore_errors=True); os.makedirs(tmp)
        if 'gotest' in s:
            open(tmp+'/demo_go.txt','w').write(s['gotest']); open(tmp+'/demo.sh','w').write(DEMO_GO%{'pkg':s['pkg']})
        elif s.get('reject'):
            open(tmp+'/prog.clara','w').write(s['prog']); open(tmp+'/demo.sh','w').write(DEMO_REJ)
        else:
            open(tmp+'/prog.clara','w').write(s['prog']); open(tmp+'/expected.txt','w').write(s['expect'])
            open(tmp+'/demo.sh','w').write(DEMO_RUN%{'args':s.get('args',''),'rc':s.get('rc',0)})
        for k,v in s.get('files',{}).items(): open(tmp+'/'+k,'w').write(v)
        open(tmp+'/patch.diff','w').write(patch)
        json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(tmp+'/meta.json','w'),indent=1)
        b=sh('bash /opt/vp/build.sh'); 
        if b.returncode: raise Exception('build: '+b.stderr[-500:])
        sh('bash /opt/vp/test.sh /tmp/seedt.json')
        miss=base-set(json.load(open('/tmp/seedt.json'))['passed'])
        if miss: raise Exception(f'tests fail: {sorted(miss)}')
        w=sh(f'bash {tmp}/demo.sh',cwd=R)
        sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
        c=sh(f'bash {tmp}/demo.sh',cwd=R)
        if c.returncode: raise Exception('demo fails on clean tree: '+c.stdout[-800:]+c.stderr[-300:])
        if w.returncode==0: raise Exception('demo passes with the change')
        shutil.rmtree(d,ignore_errors=True); shutil.move(tmp,d)
        print('KEPT',s['id'],s['property'])
    except Exception as e:
        print('DROP',s['id'],e)
    finally:
        sh('git -C /repo checkout -- .')
