#!/bin/bash
# try.sh PROP [scenario...] development: rebuild and run
/verif/mc/dev.sh plain || exit 1
p=$1; shift
VERBOSE=1 /tmp/w-plain/worker.bin check -prop $p -tier ${TIER:-quick} -secs ${SECS:-300} ${1:+-name $1}
