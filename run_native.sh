#!/bin/bash
# run_native.sh pkgdir regexp: run witness tests directly (development aid)
. /opt/vp/env.sh
R=${REPO:-/repo}
T=$(mktemp -d)
python3 - "$1" "$R" > $T/ov.json <<'P'
import json,sys,glob,os
pkg,repo=sys.argv[1:3]
ov={}
for f in glob.glob(f'/verif/witness/{pkg}/*.go'): ov[f'{repo}/{pkg}/'+os.path.basename(f)]=f
for f in glob.glob('/verif/witness/zzgw/*.go'): ov[f'{repo}/zzgw/'+os.path.basename(f)]=f
print(json.dumps({"Replace":ov}))
P
cd $R && go test -vet=off -overlay $T/ov.json -c -o $T/t ./$1 && mkdir $T/w && cd $T/w && TMPDIR=$T/w VERIF_SEED=${VERIF_SEED:-1} GOV_BUDGET_MS=${MS:-5000} $T/t -test.run "$2" -test.v 2>&1 | sed -E "s/(close)+//; s/result of [^\n]*//" | grep -v -E "^(header is|found snap|Creating|backingfile|\$)" | cut -c1-${W:-1500} | tail -${TAIL:-60}
rm -rf $T
