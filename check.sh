#!/bin/bash
# check.sh ID quick|thorough  -- build the harness against /repo's working tree, then run one check
cd "$(dirname "$0")" || exit 3
root=$(pwd)
./build.sh || exit 3
# the harness decides nothing by the clock; this only keeps a stuck run from staying around
limit=850
[ "$2" = thorough ] && limit=7200
# memory: leave room for the rest of the machine
ulimit -v 24000000
exec timeout --signal=KILL $limit "$root/harness/target/release/harness" run "$1" "$2" "${VERIF_SEED:-1}" "$root"
