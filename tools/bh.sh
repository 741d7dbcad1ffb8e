#!/bin/bash
# bh.sh [repo] [out]: build harness
R=${1:-/repo}; O=${2:-/tmp/harness}
. /opt/vp/env.sh
python3 - $R <<'P'
import os,json,sys
R=sys.argv[1];src='/verif/harness';rep={}
for f in sorted(os.listdir(src)):
    if f.endswith('.go'): rep[os.path.join(R,'verifharness',f)]=os.path.join(src,f)
for pk in sorted(os.listdir(src)):
    d=os.path.join(src,pk)
    if pk.startswith('x_') and os.path.isdir(d):
        t=pk[2:].replace('__','/')
        for f in os.listdir(d): rep[os.path.join(R,'' if t=='root' else t,f)]=os.path.join(d,f)
json.dump({'Replace':rep},open('/tmp/bh.json','w'))
P
cp $R/go.mod /tmp/bh.mod; cp $R/go.sum /tmp/bh.sum
cd $R && GOFLAGS= go build -mod=mod -modfile=/tmp/bh.mod -overlay /tmp/bh.json -o $O ./verifharness
