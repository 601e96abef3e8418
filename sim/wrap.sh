#!/bin/bash
# rustc wrapper: the code under test calls __sanitizer_cov_trace_pc_guard on
# every edge of its control flow, which is where the scheduler may preempt it.
rustc=$1
shift
case " $* " in
  *" --crate-name terminus_store "*)
    exec "$rustc" "$@" -C passes=sancov-module \
      -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard
    ;;
esac
exec "$rustc" "$@"
