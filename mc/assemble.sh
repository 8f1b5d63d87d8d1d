#!/bin/bash
# assemble.sh DEST MODE RW: instrumented copy of /repo's current working tree plus runtime and scenarios.
# MODE is plain or race.
set -e
dest=$1 mode=$2 rw=$3
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
M=github.com/zhiqiangxu/qrpc
mkdir -p "$dest"
(cd "$repo" && find . -path ./.git -prune -o -path ./test -prune -o -path ./tool -prune -o -name vendor -prune -o \
   -name "*.go" ! -name "*_test.go" -print0 | xargs -0 cp --parents -t "$dest")
v=$(awk '$1=="go"{print $2}' "$repo/go.mod")
case "$v" in 1.[0-9]|1.1[0-9]|1.20|"") v=1.21;; esac
sed -E "s/^go .*/go $v/" "$repo/go.mod" | grep -v '^toolchain' > "$dest/go.mod"
cp "$repo/go.sum" "$dest/go.sum"
mkdir -p "$dest/zz/dep"
cp -r "$here/vs" "$here/x" "$here/scn" "$here/worker" "$dest/zz/"
# third-party code that synchronises: instrumented copies
mods=$(cd "$dest" && go list -m -f '{{.Path}} {{.Dir}}' github.com/oklog/run github.com/gorilla/websocket)
deps=""
while read -r p d; do
  b=$(basename "$p")
  mkdir -p "$dest/zz/dep/$b"
  cp "$d"/*.go "$dest/zz/dep/$b/"
  find "$dest/zz/dep/$b" -name '*_test.go' -delete
  chmod -R u+w "$dest/zz/dep/$b"
  find "$dest" -name '*.go' -not -path '*/zz/vs/*' -exec sed -i "s#\"$p\"#\"$M/zz/dep/$b\"#" {} +
  deps="$deps,$M/zz/dep/$b"
done <<< "$mods"
cd "$dest"
pk=$(go list ./... | grep -v "^$M/zz/" | grep -v "/codegen/pb$" | paste -sd,)
hp=$(go list ./zz/scn/... | paste -sd,)
flags=()
[ "$mode" = race ] && flags+=(-race)
"$rw" -dir "$dest" "${flags[@]}" -pkgs "$pk$deps" -hpkgs "$hp"
