#!/bin/bash
# RUSTC_WRAPPER: adds basic-block instrumentation (LLVM SanitizerCoverage,
# trace-pc-guard) to the code under test and to the crossbeam crates, so the
# simulator gets a preemption point at every edge. Everything else, the
# harness included, is compiled as usual.
rustc="$1"; shift
crate=""; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && crate="$a"
  prev="$a"
done
case "$crate" in
  starry|starry_glue|crossbeam*)
    exec "$rustc" "$@" -C passes=sancov-module -C embed-bitcode=no -C codegen-units=8 \
      -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
