#!/bin/bash
# check.sh HARNESS PROPERTY [quick|thorough]: rebuild the harness against /repo's working tree and run the check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
h="$1"; prop="$2"; tier="${3:-${VERIF_TIER:-quick}}"; seed="${VERIF_SEED:-1}"
"$here/build.sh" "$h" || { echo "build failed" >&2; exit 2; }
mkdir -p "$here/evidence" "$here/replays"
secs=60; [ "$tier" = thorough ] && secs="${SIM_SECS:-700}"
export SIM_KNOWN="$here/known_findings.json"
exec "$here/sim/target/debug/$h" check "$prop" --tier "$tier" --seed "$seed" --secs "$secs" \
  --evidence "$here/evidence/$prop.json" --replays "$here/replays"
