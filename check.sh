#!/bin/sh
# check.sh ID [quick|thorough]   run a check
# check.sh replay FILE           replay a violation
# check.sh build                 build only
cd "$(dirname "$0")" || exit 2
root=$(pwd)
export HOME="${HOME:-/root}"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly GO111MODULE=on CGO_ENABLED=0
export MC_ROOT="$root"
mkdir -p "$root/.build" || exit 2
# C29 is executed under the race detector, which ends the process at the first race.
race=
bin="$root/.build/mc"
if [ "$1" = C29 ] || { [ "$1" = replay ] && grep -q '"check": "C29"' "$2"; }; then
	race=-race bin="$root/.build/mcrace"
	export CGO_ENABLED=1 GORACE="halt_on_error=1 exitcode=66 atexit_sleep_ms=0"
fi
# C21 looks at internal packages; should they have been rearranged, the public
# consequences are checked instead.
(cd mc && go build $race -tags internals -o "$bin.$$" ./cmd/mcpub 2>"$root/.build/log.$$") ||
	(cd mc && go build $race -o "$bin.$$" ./cmd/mcpub) ||
	{ cat "$root/.build/log.$$"; rm -f "$root/.build/log.$$"; echo "error: build failed"; exit 2; }
rm -f "$root/.build/log.$$"
mv -f "$bin.$$" "$bin" || exit 2
case "$1" in
build) exit 0 ;;
replay) exec "$bin" replay "$2" ;;
esac
tier="${2:-${VERIF_TIER:-quick}}"
seconds=420
[ "$tier" = thorough ] && seconds=780
exec "$bin" run "$1" "$tier" "$seconds" "$root"
