#!/bin/bash
# comp.sh cNN [budget] [repo]: runs one companion alone.
. /opt/vp/env.sh
r=${3:-/repo}; o=$(mktemp -d); trap 'rm -rf "$o"' EXIT
python3 - "$1" "$r" >"$o/o.json" <<'P'
import sys,os,json
d={}
for k in (sys.argv[1],'vh'):
    for f in os.listdir('/verif/harness/'+k): d['%s/zzverif/%s/%s'%(sys.argv[2],k,f)]='/verif/harness/%s/%s'%(k,f)
print(json.dumps({'Replace':d}))
P
cd $r; mkdir $o/t; race=; grep -qs '//verif:race' /verif/harness/$1/*_test.go && race=-race
go test -c $race -overlay $o/o.json -vet=off -o $o/h.test ./zzverif/$1 || exit 1
cd $o/t; VERIF_BUDGET=${2:-8} VERIF_REPO=$r VERIF_SCRATCH=$o/t TMPDIR=$o/t $o/h.test -test.timeout=0 2>&1 | cut -c1-1500 | head -60
