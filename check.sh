#!/bin/bash
# check.sh PROPERTY: builds the simulator around the current tree of /repo and searches for a violation of PROPERTY.
# VERIF_SEED selects the batch of simulated runs, VERIF_TIER=thorough the long search.
cd "$(dirname "$0")" || exit 2
prop=$1
tier=${VERIF_TIER:-quick}
seed=${VERIF_SEED:-1}
if [ "$tier" = thorough ]; then budget=${SIM_BUDGET:-780}; else tier=quick; budget=${SIM_BUDGET:-14}; fi
mkdir -p evidence replays
exe=$(python3 tools/build.py) || exit 2
exec "$exe" --prop "$prop" --seed "$seed" --budget "$budget" --workers "${SIM_WORKERS:-8}" --tier "$tier" \
	--out "evidence/$prop.json" --replay-dir replays --known known-findings.txt
