#!/bin/bash
# check.sh ID [quick|thorough]   decide one property on /repo's working tree
# check.sh --replay FILE         run a replay file again
here="$(cd "$(dirname "$0")" && pwd)"
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x "$d/go" ] && { PATH="$d:$PATH"; break; }; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod VERIF_ROOT="$here"
bin="$(mktemp -d /tmp/gredis-vrun-XXXXXX)" || exit 2
trap 'rm -rf "$bin"' EXIT
(cd "$here/harness" && go build -o "$bin/vrun" ./cmd/vrun) || { echo "ERROR: cannot build the driver" >&2; exit 2; }
"$bin/vrun" "$@"
