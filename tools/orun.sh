#!/bin/bash
# orun.sh ORACLEDIR SUBDIR TEST : run one oracle by hand
cd /verif; . ./env.sh
python3 - "$1" "$2" > /tmp/t/orun.json <<'P'
import sys,glob,json,os,re
d,sub=sys.argv[1:3]; r={}
base='/repo' if sub=='.' else '/repo/'+sub
for f in glob.glob('/verif/oracle/%s/*.go'%d): r[base+'/zz_verif_'+os.path.basename(f)]=f
src=open('/verif/oracle/common/vrt.go').read()
pkg=None
for f in glob.glob('/verif/oracle/%s/*.go'%d): pkg=re.search(r'^package (\w+)',open(f).read(),re.M).group(1)
open('/tmp/t/vrt_test.go','w').write(src.replace('package common','package '+pkg,1)); r[base+'/zz_verif_vrt_test.go']='/tmp/t/vrt_test.go'
print(json.dumps({"Replace":r}))
P
cd /repo && ORACLE_OUT=/tmp/t/orun_out.json go test -vet=off -count=1 -timeout 600s -overlay /tmp/t/orun.json -run "^$3\$" ./$2 2>&1 | cut -c1-${W:-700} | head -${N:-40}
python3 -c "
import json;d=json.load(open('/tmp/t/orun_out.json'));print('evals',d['evaluations'],'distinct',d['distinct'],'fails',len(d['failures'] or []))"
