#!/bin/bash
# par.sh PROP SECS: eight workers of an already built simulator, essentials of each
cd /verif; for s in 1 100000 200000 300000 400000 500000 600000 700000; do tools/try.sh $1 $2 $s > /tmp/par.$s & done; wait
for s in 1 100000 200000 300000 400000 500000 600000 700000; do grep -E "^(runs|evals|known)" /tmp/par.$s | tr '\n' ' '; grep VIOL -A${3:-2} /tmp/par.$s | cut -c1-${4:-700}; echo; done; grep -h -E "^(faults|probes)" /tmp/par.1
