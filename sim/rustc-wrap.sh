#!/bin/bash
# RUSTC_WRAPPER: instruments the library under test and nothing else.
#   - a callback on every control-flow edge (sancov) and on every atomic access (tsan pass, atomics only)
# and lets the harness crate use the allocation-error hook.
case " $* " in
  *" --crate-name stratum_dsp "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-pc-table "-Cpasses=function(tsan)" ;;
  *" --crate-name sim "*)
    export RUSTC_BOOTSTRAP=1
    exec "$@" ;;
esac
exec "$@"
