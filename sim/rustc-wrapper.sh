#!/bin/sh
# Adds SanitizerCoverage instrumentation (used as preemption points) to the crates under simulation.
rustc="$1"; shift
prev=""; name=""; macro=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  [ "$a" = "proc-macro" ] && macro=1
  prev="$a"
done
case "$name" in
  h_accounting|h_chain|h_mempool|h_p2p) instr="" ;;
  utils|utils_networking|subsystem|storage|storage_core|storage_inmemory|storage_sqlite|storage_failing|rpc|networking|accounting|pos_accounting|tokens_accounting|orders_accounting|slave_pool|tokio|tokio_stream|crossbeam_channel|h_*) instr=1 ;;
  *) instr="" ;;
esac
if [ -n "$instr" ] && [ -z "$macro" ]; then
  exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard
fi
exec "$rustc" "$@"
