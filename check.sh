#!/bin/bash
# check.sh PROP quick|thorough [race]: rebuild the instrumented tree from /repo and decide PROP.
cd "$(dirname "$0")" || exit 2
here=$PWD
prop=$1 tier=${2:-quick} mode=${3:-plain}
[ "$prop" = C24 ] && mode=race
secs=${VERIF_SECS:-}
if [ -z "$secs" ]; then [ "$tier" = thorough ] && secs=3000 || secs=420; fi
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
if [ "$prop" = C26 ]; then
  mkdir -p "$here/.build" "$here/evidence"
  g=$here/.build/gencheck.$$
  (cd "$here/mc/gencheck" && go build -o "$g" .) || { echo "build failed" >&2; exit 2; }
  timeout -k 5 $((secs + 300)) "$g" -tier "$tier" -verif "$here" -repo "${VERIF_REPO:-/repo}"
  rc=$?
  rm -f -- "$g"
  exit $rc
fi
if [ "$prop" = C30 ]; then
  mkdir -p "$here/.build" "$here/evidence"
  g=$here/.build/toolcheck.$$
  (cd "$here/mc/toolcheck" && go build -o "$g" .) || { echo "build failed" >&2; exit 2; }
  timeout -k 5 $((secs + 300)) "$g" -tier "$tier" -verif "$here" -repo "${VERIF_REPO:-/repo}"
  rc=$?
  rm -f -- "$g"
  exit $rc
fi
if [ "$prop" = C27 ]; then
  mkdir -p "$here/.build" "$here/evidence"
  g=$here/.build/tls.$$
  "$here/mc/tlscheck/build.sh" "$g" >&2 || { rm -rf -- "$g"; echo "build failed" >&2; exit 2; }
  timeout -k 5 $((secs + 300)) "$g/tlscheck.bin" -tier "$tier" -verif "$here"
  rc=$?
  rm -rf -- "$g"
  exit $rc
fi
w=$("$here/build.sh" "$mode") || { echo "build failed" >&2; exit 2; }
flags=()
if [ "$mode" = race ]; then
  flags+=(-race)
else
  r=$("$here/build.sh" race) || { echo "build failed" >&2; exit 2; }
  flags+=(-racebin "$r")
fi
ulimit -c 0
exec timeout -k 5 $((secs + 300)) "$w" check -prop "$prop" -tier "$tier" -verif "$here" -secs "$secs" "${flags[@]}"
