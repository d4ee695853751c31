#!/bin/bash
# check.sh PROPERTY [extra driver flags]: builds the simulator from /repo's
# working tree and searches for violations of one property.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
P="${1:?property}"; shift
case "$P" in C22|C23|C24|C25|C26|C27|C31|C32) SUITE=hd ;; *) SUITE=core ;; esac
mkdir -p "$V/build" "$V/evidence"
"$V/build.sh" $SUITE || { echo "check.sh: build failed" >&2; exit 2; }
exec "${VERIF_BUILD:-$V/build}/$SUITE" check -prop "$P" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -root "$V" "$@"
