#!/bin/bash
# Builds the harness once (fills the build cache where that survives) and lists the properties.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/lib/go-1.22/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root}
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=readonly -buildvcs=false" GOWORK=off TZ=UTC CGO_ENABLED=0
out=$(mktemp -d "${TMPDIR:-/tmp}/verif-build.XXXXXX") || exit 2
trap 'rm -rf "$out"' EXIT
cd "$here/harness" && go build -o "$out/pbt" . && "$out/pbt" -list
