#!/bin/bash
# development helper: rebuild instrumented tree in /tmp/w-MODE
set -e
m=${1:-plain}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
(cd /verif/mc/rw && go build -o /tmp/rw .)
rm -rf /tmp/w-$m; /verif/mc/assemble.sh /tmp/w-$m $m /tmp/rw
cd /tmp/w-$m && go build -o worker.bin ./zz/worker
