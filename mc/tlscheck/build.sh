#!/bin/bash
# build.sh DIR: assembles and builds the TLS check against the repository in DIR
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
mkdir -p "$1"
sed 's/^module .*/module tlscheck/' "$repo/go.mod" > "$1/go.mod"
printf '\nrequire github.com/zhiqiangxu/qrpc v0.0.0\nreplace github.com/zhiqiangxu/qrpc => %s\n' "$repo" >> "$1/go.mod"
cp "$repo/go.sum" "$1/go.sum"
cp "$here/main.go" "$1/main.go"
cd "$1" && go build -trimpath -o tlscheck.bin .
