#!/bin/bash
# check.sh ID [quick|thorough]: rebuilds the simulator from /repo's working tree and decides one property.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
bash sim/build.sh || exit 2
exec sim/target/release/diffy-sim check "$1"
