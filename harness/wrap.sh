#!/bin/bash
# RUSTC_WRAPPER: compile only the diffy crate with edge and comparison callbacks (stable rustc, LLVM SanitizerCoverage).
rustc="$1"; shift
case " $* " in
  *" --crate-name diffy "*)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-trace-compares -C codegen-units=1 ;;
esac
exec "$rustc" "$@"
