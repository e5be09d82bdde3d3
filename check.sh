#!/bin/bash
# Usage: check.sh CXX [-replay FILE]   (VERIF_TIER=quick|thorough)
# Rebuilds the check against /repo's current working tree and runs it.
export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -d "$d" ] && PATH="$d:$PATH"; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOSUMDB=off GO111MODULE=on
root=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$root
id=$1; shift
lc=$(echo "$id" | tr A-Z a-z)
tmp=$(mktemp -d /tmp/verif_$lc.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
export VERIF_TMP=$tmp
mkdir -p "$root/evidence"
cd "$root/mc" || exit 2
if ! go build -o "$tmp/check" "./cmd/$lc" 2> "$tmp/build.err"; then
  cat "$tmp/build.err"; echo "$id: cannot build against /repo"; exit 2
fi
run() { "$tmp/check" "$@" > "$tmp/out" 2> "$tmp/err"; rc=$?; cat "$tmp/out"; tail -c 4000 "$tmp/err" >&2; return $rc; }
run "$@"; rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  # The process died (a panic outside any guarded call, a fatal runtime error):
  # the code under test crashed it if it does so again.
  run "$@"; rc=$?
  if [ $rc -ne 0 ] && [ $rc -ne 1 ] && grep -qE '^(panic|fatal error|runtime|SIG)' "$tmp/err" && grep -q 'uniswap-simulator' "$tmp/err"; then
    f=$root/evidence/replay_$id.txt
    { echo "crash of the process while exploring $id (twice)"; head -c 20000 "$tmp/err"; } > "$f"
    echo "VIOLATION property=$id replay=$f"
    exit 1
  fi
fi
exit $rc
