#!/bin/bash
# RUSTC_WRAPPER: compiles the code under test (diffy and the monomorphic shims) with a callback on every
# basic-block edge.  The simulator's callback is both the simulated clock and the preemption point.
rc="$1"; shift
case " $* " in
  *" --crate-name diffy "*|*" --crate-name subject "*)
    exec "$rc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=1 ;;
esac
exec "$rc" "$@"
