#!/bin/bash
# Warms the Go build cache for the monitor; every check builds for itself all the same.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=1
W="$(mktemp -d /tmp/vsetup.XXXXXX)" || exit 1
trap 'rm -rf -- "$W"' EXIT
cp "$HERE/harness/go.mod" "$HERE/harness/go.sum" "$W/" || exit 1
cd "$HERE/harness" && go build -modfile="$W/go.mod" -o "$W/vmon" ./cmd/vmon
