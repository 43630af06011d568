#!/usr/bin/env python3
"""mkseed.py SPEC.py...  builds /verif/seeded/<id>/ from a spec and keeps it only when it counts:
spec variables: property, needs, breaks, edits=[(file, old, new)], pkg (repo subdir of the demo), demo (Go test source with TestDemo)."""
import sys,os,json,subprocess,shutil,tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/root/.cache/go-build',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'])
DEMO='''#!/bin/bash
# exit 0: the behaviour is right; non-zero: broken. Run with cwd = the repository.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
t="$(mktemp -d)" || exit 2
trap 'rm -rf "$t"' EXIT
cp "$here/demo.go.txt" "$t/zz_demo_test.go"
echo "{\\"Replace\\": {\\"$PWD/%(sub)szz_demo_test.go\\": \\"$t/zz_demo_test.go\\"}}" > "$t/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestDemo$' ./%(sub)s
'''
def sh(c,cwd): return subprocess.run(c,cwd=cwd,env=ENV,shell=True,capture_output=True,text=True)
bad=0
for spec in sys.argv[1:]:
    s={}; exec(open(spec).read(),s); id=os.path.basename(spec)[:-3]
    sub=s.get('pkg','.'); sub='' if sub=='.' else sub+'/'
    tmp=tempfile.mkdtemp(prefix='seed_'); r=tmp+'/repo'
    try:
        subprocess.check_call(['cp','-a','/repo',r]); sh('git checkout -q -- . && git clean -fdq',r)
        d=V+'/seeded/'+id; os.makedirs(d,exist_ok=True)
        open(d+'/demo.go.txt','w').write(s['demo'].lstrip()); open(d+'/demo.sh','w').write(DEMO%{'sub':sub}); os.chmod(d+'/demo.sh',0o755)
        json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
        p=sh('bash %s/demo.sh'%d,r)
        ok=True
        if p.returncode: print(id,'DEMO FAILS ON CLEAN',p.stdout[-2500:],p.stderr[-500:]); ok=False
        for f,o,n in s['edits']:
            t=open(r+'/'+f).read()
            if t.count(o)!=1: print(id,'EDIT MATCHES',t.count(o),f,repr(o[:50])); ok=False
            open(r+'/'+f,'w').write(t.replace(o,n,1))
        if ok:
            open(d+'/patch.diff','w').write(sh('git diff',r).stdout)
            p=sh('gofmt -l . ; go build ./...',r)
            if p.returncode: print(id,'NO BUILD',p.stderr); ok=False
            p=sh('go test -vet=off -count=1 -json ./...',r)
            f=[json.loads(l) for l in p.stdout.splitlines() if l.startswith('{')]
            base=json.load(open('/opt/vp/BASELINE.json')); names=json.dumps(base)
            for e in f:
                if e.get('Action')=='fail' and e.get('Test') and e['Test'] in names: print(id,'TEST FAILS',e['Test']); ok=False
            p=sh('bash %s/demo.sh'%d,r)
            if p.returncode==0: print(id,'DEMO PASSES ON BUG'); ok=False
            elif '--- FAIL: TestDemo' not in p.stdout and 'panic' not in p.stdout: print(id,'DEMO ODD',p.stdout,p.stderr); ok=False
        print(id,'OK' if ok else 'REJECTED')
        if not ok: shutil.rmtree(d); bad=1
    finally: shutil.rmtree(tmp)
sys.exit(bad)
