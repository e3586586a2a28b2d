#!/bin/bash
# Builds the driver and the workers once, offline (fills Go's build cache).
here="$(cd "$(dirname "$0")" && pwd)"
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x "$d/go" ] && { PATH="$d:$PATH"; break; }; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
out="$(mktemp -d /tmp/gredis-setup-XXXXXX)" || exit 1
trap 'rm -rf "$out"' EXIT
cd "$here/harness" &&
go build -o "$out/vrun" ./cmd/vrun &&
go test -c -o "$out/worker" ./worker &&
go test -race -c -o "$out/racew" ./racew &&
echo "setup done with $(go version)"
