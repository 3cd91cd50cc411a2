#!/bin/bash
# bt.sh PROP SECS [start]: build (plain, or RACE=1) and try one worker
cd /verif && ./check --build $([ "$RACE" ] && echo race || echo plain) >/tmp/bt.out 2>&1 || { tail -40 /tmp/bt.out; exit 1; }; tools/try.sh "$@"
