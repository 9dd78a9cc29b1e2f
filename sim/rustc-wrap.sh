#!/bin/bash
# RUSTC_WRAPPER: compiles the code under test (and the crate in which its generics are
# instantiated) with SanitizerCoverage, so that every basic block is a point at which the
# simulator may take the processor away. Everything else is compiled normally.
rustc="$1"; shift
name=; prev=
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  rustfst|rustfst_ffi|simcli|sim|harness)
    exec "$rustc" "$@" -C passes=sancov-module \
      -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
