#!/bin/bash
# Builds the contracts natively and for the verifier (dependencies and one module each).
cd "$(dirname "$0")/.." || exit 1
export CARGO_NET_OFFLINE=true
V=$PWD
(cd contracts && cargo build --offline --bin narrow-contracts --no-default-features --features c02 --target-dir "$V/target/native") || exit 1
(cd contracts && cargo kani --lib --no-default-features --target-dir "$V/target/kani" --features c02 -j 8 --output-format=terse --harness c02_parts_array -Z unstable-options -Z stubbing --harness-timeout 300s) || exit 1
python3 tools/extract_ffi.py /repo/narrow-ffi "$V/work/narrow-ffi" || exit 1
(cd contracts-ffi && cargo kani --lib --no-default-features --target-dir "$V/target/kani" --features c17 -j 8 --output-format=terse --harness c17_i8 -Z unstable-options -Z stubbing --harness-timeout 300s) || exit 1
python3 tools/extract_loops.py /repo "$V/work/narrow-loops" || exit 1
(cd contracts-loops && cargo kani --lib --no-default-features --target-dir "$V/target/kani" --features c07 -j 8 --output-format=terse --harness c07_loop_i32 -Z unstable-options -Z stubbing --harness-timeout 300s) || exit 1
