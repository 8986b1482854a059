#!/bin/bash
# hh.sh FEATURES H1 H2 .. : runs harnesses in parallel (8 shards each at most), short summaries (development)
f=$1; shift
L=$(ls -t /verif/work/ir-${f:-plain}/release/deps/harness-*.ll | head -1)
for h in "$@"; do for s in $(seq 0 $((${SH:-1}-1))); do echo "$h $s"; done; done | xargs -P 8 -L1 bash -c '/verif/engine/target/release/engine '$L' $0 --seconds ${SEC:-150} --tier ${VERIF_TIER:-quick} --shard $1/'${SH:-1}' --out /tmp/o-$0-$1.json >/tmp/o-$0-$1.log 2>&1'
python3 - "$@" <<P
import json,sys
for h in sys.argv[1:]:
    rs=[]
    for s in range(${SH:-1}):
        try: rs.append(json.load(open('/tmp/o-%s-%d.json'%(h,s))))
        except Exception as e: print(h,s,'NO OUTPUT',open('/tmp/o-%s-%d.log'%(h,s)).read()[-600:])
    if not rs: continue
    t={}; g={}
    for r in rs:
        for k,v in r['reach'].items(): t[k]=t.get(k,0)+v
        g.update(r['gave_up'])
    print('%-22s paths %d assumed %d unexpl %d instr %.1fM checks %d/%d q %d solver %.1fs wall %.1fs maxsteps %d'%(h,sum(r['paths'] for r in rs),sum(r['assumed_away'] for r in rs),sum(r['unexplored'] for r in rs),sum(r['instructions'] for r in rs)/1e6,sum(r['checks'] for r in rs),sum(r['checks_symbolic'] for r in rs),sum(r['queries'] for r in rs),sum(r['solver_s'] for r in rs),max(r['wall_s'] for r in rs),max(r['max_steps'] for r in rs)),t,g or '')
    seen=set()
    for r in rs:
        for v in r['violations']:
            if v['msg'] in seen: continue
            seen.add(v['msg'])
            print('   VIOL',v['kind'],v['msg'],v['notes'],'\n      ','\n       '.join(x[:150] for x in v['at'][:10]),'\n      ',','.join(v['inputs'])[:300])
P
