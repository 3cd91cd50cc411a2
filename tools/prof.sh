#!/bin/bash
# prof.sh PROP SECS: CPU profile of one worker
cd /verif && GODEBUG=asyncpreemptoff=1 .build/sim.test -sim.prop $1 -sim.secs $2 -sim.start 1 -sim.known known_findings.jsonl -test.cpuprofile /tmp/cpu.prof >/dev/null 2>&1; go1.26 tool pprof -top -cum .build/sim.test /tmp/cpu.prof 2>/dev/null | head -${3:-70}
