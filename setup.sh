#!/bin/bash
# Builds the analyser, a full-MIR standard library and the third-party dependencies of the probes.
set -e
cd "$(dirname "$0")"
V=$PWD
export CARGO_NET_OFFLINE=true
mkdir -p target
(cd analyzer && CARGO_TARGET_DIR=$V/target/analyzer cargo +nightly build --release --offline -q)
MIRI_SYSROOT=$V/target/sysroot cargo +nightly miri setup 2>&1 | tail -3
python3 check.py --setup
