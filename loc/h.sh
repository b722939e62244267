#!/bin/bash
# h.sh PROP family case : prints the history of one case
cd /verif/loc; timeout 300 /verif/target/loc/debug/vloc run $1 --only $2 --case $3 > /tmp/h.json
python3 - <<'PY'
import json
d=json.load(open('/tmp/h.json'))
for v in d['violations']:
    print(v['props'],v['sig'],v['detail'])
    print('\n'.join(v['history'][:200]))
PY
