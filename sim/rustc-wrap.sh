#!/bin/bash
# RUSTC_WRAPPER: instruments the crate under test only.  Every basic block, load and store of aga8 becomes a
# call into the simulator (preemption point, simulated clock, crash point, coverage).  No source hook is needed.
rustc=$1; shift
case " $* " in
  *" --crate-name aga8 "*)
    exec "$rustc" "$@" -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-prune-blocks=0 \
      -Cllvm-args=-sanitizer-coverage-trace-stores -Cllvm-args=-sanitizer-coverage-trace-loads ;;
  *) exec "$rustc" "$@" ;;
esac
