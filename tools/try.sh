#!/bin/bash
# try.sh PROP SECS [start] : run one worker and print the essentials
cd /verif
B=.build/sim.test; [ "$RACE" ] && B=.build/sim.race.test
GORACE="log_path=/tmp/rl.$$ suppress_equal_stacks=0" GODEBUG=asyncpreemptoff=1 timeout $(( $2 * 10 + 120 )) $B -sim.prop $1 -sim.secs $2 -sim.start ${3:-1} -sim.known known_findings.jsonl > /tmp/try.$$ 2>/tmp/try.err.$$; 
python3 - /tmp/try.$$ <<'P'
import json,sys
t=open(sys.argv[1]).read()
i=t.find('{'); j=t.rfind('}')
try:
    d=json.loads(t[i:j+1])
except Exception as e:
    print(t[-3000:]); sys.exit()
v=d.get('violation')
for k in ('runs','evals','faults','probes','known','sim_seconds','wall_seconds','steps','preempts','yields','last_seed'): print(k,d.get(k))
print('samples',(d['samples'] or [])[:4])
if v:
    print('VIOL',v['seed'],v['rule'],v['key'],'choices',len(v['choices']),'of',v['choices_before_minimising']); print(v['msg'][:int(__import__('os').environ.get('MSG','1800'))]); print('\n'.join(x[:200] for x in v['trace'][-int(__import__("os").environ.get("TAIL","12")):]))
P
tail -5 /tmp/try.err.$$; rm -f /tmp/try.$$ /tmp/try.err.$$ /tmp/rl.$$*
