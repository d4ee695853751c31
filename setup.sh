#!/bin/bash
# Builds the simulator and both harnesses once, which fills the build cache.
set -eu
cd "$(dirname "$0")"
mkdir -p build evidence replays
for s in core hd; do ./build.sh $s; done
