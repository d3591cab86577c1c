#!/bin/bash
# RUSTC_WRAPPER: adds sanitizer-coverage instrumentation (edge counters and comparison tracing)
# to the crate under test and to the crate that instantiates its generics, and to nothing else.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
if [ "$VP_SANCOV" = 1 ] && { [ "$name" = cryptography ] || [ "$name" = vpcalls ]; }; then
  exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table \
    -Cllvm-args=-sanitizer-coverage-trace-compares
fi
exec "$rustc" "$@"
