#!/bin/bash
# runs every registered check (4 at a time), prints the ones that are not quiet
cd "$(dirname "$0")/.."
python3 -c "from pv.rules import REGISTRY; print(*sorted(REGISTRY), sep='\n')" | xargs -P 4 -I{} bash -c 's=$(date +%s); o=$(PION_EVID=${PION_EVID:-/tmp/all_evid} timeout 900 python3 check.py {} 2>&1); r=$?; e=$(( $(date +%s) - s )); [ $r = 0 ] && [ $e -lt 400 ] || { echo "{} rc=$r ${e}s"; echo "$o" | tail -3; }'
echo done
