#!/bin/bash
# check.sh <property> <quick|thorough>: build the simulator against /repo's current
# working tree and search.  Exit 0: held; 1: VIOLATION line printed; 2: no answer.
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
exec ./sim/target/release/dst check "$1"
