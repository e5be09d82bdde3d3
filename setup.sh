#!/bin/bash
# Warms the build cache for every check (checks rebuild what changed).
export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -d "$d" ] && PATH="$d:$PATH"; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOSUMDB=off
cd "$(dirname "$0")/mc" && go version && go build ./... 
go build -race -o /dev/null ./cmd/c09w && go build -race -o /dev/null uniswap-simulator
