#!/bin/bash
# h.sh FEATURES HARNESS [engine args] : run a harness on the last built IR (development)
L=$(ls -t /verif/work/ir-${1:-plain}/release/deps/harness-*.ll | head -1)
h=$2; shift 2
/verif/engine/target/release/engine $L $h --seconds 120 --out /tmp/o-$h.json "$@" 2>&1 | tail -20 | cut -c1-300
python3 - <<P
import json
o=json.load(open('/tmp/o-$h.json'))
for k in ['status','paths','assumed_away','unexplored','instructions','forks','checks','checks_symbolic','queries','solver_s','wall_s','reach','gave_up']: print(k,o[k],end='; ')
print()
for v in o['violations']: print('VIOL',v['kind'],v['msg'],v['notes'],'\n   ','\n    '.join(v['at'][:14]),'\n   ',','.join(v['inputs'])[:400])
P
