#!/bin/bash
# RUSTC_WRAPPER: instruments the crate under test, and nothing else, so that every
# basic-block edge, memory access and atomic operation of the real code is a scheduling
# point. (No function carries sanitize_thread, so the tsan pass touches only the atomics.)
rustc=$1
shift
for ((i = 1; i <= $#; i++)); do
  if [ "${!i}" = --crate-name ]; then
    j=$((i + 1))
    if [ "${!j}" = h3_rs ]; then
      exec "$rustc" "$@" \
        -C "passes=sancov-module tsan-module function(tsan)" \
        -C llvm-args=-tsan-instrument-func-entry-exit=0 \
        -C llvm-args=-sanitizer-coverage-level=3 \
        -C llvm-args=-sanitizer-coverage-trace-pc-guard \
        -C llvm-args=-sanitizer-coverage-trace-loads \
        -C llvm-args=-sanitizer-coverage-trace-stores \
        -C embed-bitcode=no -C codegen-units=1
    fi
  fi
done
exec "$rustc" "$@"
