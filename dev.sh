#!/bin/bash
# dev.sh FN[,FN..]: verify only these functions (callees assumed); dev.sh all
cd /verif/vx && cargo build --offline -q 2>&1 | grep -E '^error' -A5
mkdir -p /tmp/vxd
if [ "$1" = all ]; then ./target/debug/vx gen --all --out /tmp/vxd/g.rs --map /tmp/vxd/m.json; shift; else
./target/debug/vx gen --fn "$1" --focus "$1" --out /tmp/vxd/g.rs --map /tmp/vxd/m.json; shift; fi
python3 - <<'P'
import json
m=json.load(open('/tmp/vxd/m.json'))
for k,v in m['functions'].items():
    if v['lost'] or v.get('soft'): print('LOST',k,v['lost'],v.get('soft'))
for k in m['missing']: print('MISSING',k)
P
cd /tmp/vxd && verus g.rs --multiple-errors 8 --triggers-mode silent --num-threads 8 "$@"
