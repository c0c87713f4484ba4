#!/bin/bash
# Builds the simulator from the library's working tree and runs it:
#   run.sh check C01 | replay FILE | trace C01 SEED INDEX | selftest [C01 ...] | build
# VERIF_REPO (default /repo) is the library, VERIF_BUILD the build directory.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
repo=${VERIF_REPO:-/repo}
export VERIF_BUILD=${VERIF_BUILD:-$here/.build}
export VERIF_OUT=${VERIF_OUT:-$here}
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS= GOWORK=off GOENV=off CGO_ENABLED=0
export GOCACHE=${VERIF_GOCACHE:-$here/.build/gocache}
mkdir -p "$VERIF_BUILD" "$GOCACHE" || exit 2
bin=$VERIF_BUILD/finsim.$$
trap 'rm -f "$bin"' EXIT

build() {
	(
		flock 9 || exit 2
		b=$VERIF_BUILD
		(cd "$here/tools/mkoverlay" && go build -o "$b/mkoverlay" .) || exit 2
		"$b/mkoverlay" "$repo" "$b/overlay" >"$b/mkoverlay.log" 2>&1 || { cat "$b/mkoverlay.log" >&2; exit 2; }
		sed -e "s#=> /repo#=> $repo#" -e "s#=> \./stubs/#=> $here/sim/stubs/#" "$here/sim/go.mod" >"$b/go.mod" || exit 2
		cp "$here/sim/go.sum" "$b/go.sum" || exit 2
		(cd "$here/sim" && go build -mod=mod -modfile="$b/go.mod" -overlay="$b/overlay/overlay.json" -ldflags='-s -w -checklinkname=0' -o "$bin" .) || exit 2
	) 9>"$VERIF_BUILD/lock"
}

build || { echo "run.sh: the simulator does not build" >&2; exit 2; }
[ "${1:-}" = build ] && exit 0
"$bin" "$@"
