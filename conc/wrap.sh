#!/bin/sh
# RUSTC_WRAPPER: the library under test and everything monomorphised from it call the scheduler
# before every memory access, atomic operations included, and on every edge of control flow.
case " $* " in
  *" --crate-name ttgraph "*|*" --crate-name ttconc "*)
    exec "$@" "-Cpasses=sancov-module function(tsan)" -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-tsan-instrument-memory-accesses=0 \
      -Cllvm-args=-tsan-instrument-memintrinsics=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 ;;
esac
exec "$@"
