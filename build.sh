#!/bin/bash
# build.sh [HARNESS...]: build harnesses (all by default) against /repo's working tree, offline.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/sim" || exit 2
unset RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR
args=(); for h in "$@"; do args+=(-p "$h"); done
log="$(mktemp)"; trap 'rm -f "$log"' EXIT
if ! cargo build --offline --locked "${args[@]}" >"$log" 2>&1; then grep -A12 -E '^error' "$log" | head -80 >&2; tail -5 "$log" >&2; exit 2; fi
