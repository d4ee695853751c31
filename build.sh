#!/bin/bash
# build.sh core|hd: rewrites /repo's current sources for the simulator and
# builds the harness binary build/core or build/hd.
set -eu
V="$(cd "$(dirname "$0")" && pwd)"
R="${VERIF_REPO:-/repo}"
B="${VERIF_BUILD:-$V/build}"
S="$1"
export PATH="/usr/local/go/bin:/opt/veriftools/go1.27.3/bin:$PATH"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off GOSUMDB=off
mkdir -p "$B"
exec 9>"$B/.lock"
flock 9
M=github.com/gocraft/health
CORE="$M $M/stack $M/sinks/bugsnag $M/sinks/librato $M/runtime_metrics"
case "$S" in
core) PK="$CORE"; T=none ;;
hd) PK="$CORE $M/healthd $M/cmd/healthd $M/cmd/healthtop"; T=hd ;;
*) echo "build.sh: core or hd" >&2; exit 2 ;;
esac
cd "$V/sim"
go build -o "$B/rewrite" ./rewrite
rm -rf "${B:?}/src-$S"
"$B/rewrite" -repo "$R" -stubs "$V/sim/stubs" -out "$B/src-$S" -vsim "$V/sim" $PK
go build -gcflags="$M/...=-l" -modfile="$B/src-$S/vsim.mod" -tags $T -o "$B/$S.new" ./harness/core
mv "$B/$S.new" "$B/$S"
