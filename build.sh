#!/bin/bash
# builds the verifier into $1 (default /verif/.cache/govc); offline
set -e
here=$(dirname "$(realpath "$0")")
out=$(realpath -m "${1:-$here/.cache/govc}")
mkdir -p "$(dirname "$out")"
G=$(ls -d /opt/veriftools/go1.27* | head -1)
cd "$here/govc"
GOROOT=$G GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build "$G/bin/go" build -o "$out" .
