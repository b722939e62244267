#!/bin/bash
# usage: t.sh PROP ms [extra]
cd /verif/loc; P=$1; M=$2; shift 2
timeout 300 ${BIN:-/verif/target/loc/debug/vloc} run $P --seed ${SEED:-1} --ms $M "$@" > /tmp/o.json
python3 - $P <<'PY'
import json,sys
d=json.load(open('/tmp/o.json'))
print(sys.argv[1],d['evaluations'],'triv',d['trivial'],'dist',len(d['distinct']),d['per_family'],'ev',d['events'],d['stats'],'OTHER',d['other'],d['inconclusive'][:2])
for v in d['violations']: print(' V',v['props'],v['sig'],v['detail'][:400],v['family'],v['case'])
PY
