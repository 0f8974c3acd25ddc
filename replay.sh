#!/bin/bash
# replay.sh FILE: replay a violation file written by check.sh (exit 1 when it is reproduced).
here="$(cd "$(dirname "$0")" && pwd)"
h="$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["harness"])' "$1")"
"$here/build.sh" "$h" || exit 2
exec "$here/sim/target/debug/$h" replay "$1"
