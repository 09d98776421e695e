#!/bin/bash
# tools/fm.sh CFG[,CFG..]: run the analyser over the witness crate (development aid)
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
( cd $V/fmlint && cargo +nightly build --offline --release --target-dir $V/target/fmlint -q 2>&1 | grep -E '^error' -A5 || true )
export RUSTC_WORKSPACE_WRAPPER=$V/target/fmlint/release/fmlint
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings" FMLINT_CFG=$1 FMLINT_OUT=${FMLINT_OUT:-/tmp/fm.out} CARGO_TARGET_DIR=${FM_TARGET:-/tmp/fmtarget}
export FMLINT_JOBS=${JOBS:-8}
export CARGO_INCREMENTAL=0
export FM_NONCE=$$.$RANDOM
cd $V/witness && cargo +nightly check --offline -q
