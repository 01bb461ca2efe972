#!/bin/bash
# development helper: gifsa.sh FEATURE ENTRY...
set -e
D=/verif/.work/dev-$1; mkdir -p $D
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
export GIFSA_DIR=$D RUSTC_WRAPPER=/verif/analyzer/target/release/gifsa CARGO_TARGET_DIR=$D/target
rm -rf $D/target/debug/build/gif $D/target/debug/build/gifsa_harness $D/target/debug/incremental
(cd /verif/harness && cargo +nightly check --offline --features $1 2>$D/log) || { cat $D/log; exit 1; }
shift
unset RUSTC_WRAPPER
$(dirname $0)/analyzer/target/release/gifsa --run $D/harness.args - "$@"
