#!/bin/bash
# build.sh MODE: build the exploration worker for /repo's working tree; prints its path.
set -e
here=$(cd "$(dirname "$0")" && pwd)
mode=${1:-plain}
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
repo=${VERIF_REPO:-/repo}
h=$( { (cd "$repo" && find . -path ./.git -prune -o \( -name '*.go' -o -name go.mod -o -name go.sum \) -type f -print0 | sort -z | xargs -0 sha256sum)
       (cd "$here/mc" && find . -type f -print0 | sort -z | xargs -0 sha256sum); echo "$mode"; } | sha256sum | cut -c1-20)
b=$here/.build
mkdir -p "$b"
exec 9>"$b/lock"
flock 9
out=$b/$h-$mode/worker
if [ ! -x "$out" ]; then
  t=$(mktemp -d "$b/tmp.XXXXXX")
  trap 'rm -rf -- "$t"' EXIT
  (cd "$here/mc/rw" && go build -o "$t/rw" .) >&2
  "$here/mc/assemble.sh" "$t/tree" "$mode" "$t/rw" >&2
  (cd "$t/tree" && go build -o "$t/worker" ./zz/worker) >&2
  # keep few old builds
  ls -1dt "$b"/*-*/ 2>/dev/null | tail -n +8 | while read -r o; do rm -rf -- "$o"; done
  mkdir -p "$b/$h-$mode"
  mv "$t/worker" "$out"
fi
echo "$out"
