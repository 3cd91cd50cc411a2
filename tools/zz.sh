#!/bin/bash
# zz.sh: run a scratch test /verif/sim/harness/zz_test.go (never committed) against the instrumented tree
export GOROOT=/opt/veriftools/go1.26.10 PATH=/opt/veriftools/go1.26.10/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
cd /verif/sim && go test -c -vet=off -modfile /verif/.build/go.mod -overlay /verif/.build/ov/overlay.json -o /tmp/zz.test ./harness && GODEBUG=asyncpreemptoff=1 /tmp/zz.test -test.run TestZZ -test.v
