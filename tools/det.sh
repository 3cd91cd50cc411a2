#!/bin/bash
# det.sh PROP [count]: runs seeds in two processes and in both orders, and lists those whose traces differ (RACE=1: race build)
cd /verif; B=.build/sim.test; [ "$RACE" ] && B=.build/sim.race.test; n=${2:-30}
export GODEBUG=asyncpreemptoff=1 GORACE=log_path=/tmp/rlx.$$
h(){ timeout 300 $B -test.timeout=0 -sim.prop $P -sim.start $1 -sim.stride $2 -sim.count $3 -sim.secs 100 -sim.hashes -sim.known known_findings.jsonl -sim.out /tmp/h.$$.$4 >/dev/null 2>&1; }
P=$1; h 1 1 $n a & h 1 1 $n b & h $n -1 $n c & wait
python3 - $$ $1 <<'E'
import json,sys
H={k:json.load(open('/tmp/h.%s.%s'%(sys.argv[1],k)))['hashes'] for k in 'abc'}
bad=[(s,[str(H[k].get(s,''))[:8] for k in 'abc']) for s in sorted(H['a'],key=int) if len({str(H[k].get(s)) for k in 'abc' if s in H[k]})>1]
print(sys.argv[2],len(H['a']),len(H['b']),len(H['c']),'differ',len(bad),bad[:5])
E
rm -f /tmp/h.$$.? /tmp/rlx.$$*
