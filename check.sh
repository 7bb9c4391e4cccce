#!/bin/bash
# check.sh PROPERTY [quick|thorough]      run one check against /repo's working tree
# check.sh --replay FILE                  run one recorded failure again
# Exit 0: held; 1: VIOLATION line; 2: the check itself could not run.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/lib/go-1.22/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root}
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=readonly -buildvcs=false" GOWORK=off TZ=UTC
if [ "$1" = --replay ]; then
	file=$(realpath "$2") || exit 2
	prop=$(sed -n 's/.*"property": "\([A-Z0-9]*\)".*/\1/p' "$file" | head -1)
	args=(-replay "$file")
else
	prop=$1
	args=(-prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}")
fi
out=$(mktemp -d "${TMPDIR:-/tmp}/verif-build.XXXXXX") || exit 2
trap 'rm -rf "$out"' EXIT
race=()
export CGO_ENABLED=0
case $prop in
C04) # used from several goroutines: under the race detector
	export CGO_ENABLED=1
	race=(-race) ;;
esac
if ! (cd "$here/harness" && go build "${race[@]}" -o "$out/pbt" .) >"$out/log" 2>&1; then
	echo "error: the harness does not build against /repo:" >&2
	head -40 "$out/log" >&2
	exit 2
fi
if [ "$prop" = M01 ]; then # the example program itself
	if ! (cd "$here/harness" && go build -o "$out/example" github.com/idoall/stockindicator) >"$out/log" 2>&1; then
		echo "error: the example does not build:" >&2
		head -40 "$out/log" >&2
		exit 2
	fi
	export VERIF_EXAMPLE=$out/example
fi
TMPDIR=$out "$out/pbt" -root "$here" "${args[@]}" ${VERIF_EXTRA:-}
exit $?
