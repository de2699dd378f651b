#!/bin/bash
# tools/sweep.sh SEEDS TIER CHECKS...   run checks with several seeds, print what is not quiet
cd "$(dirname "$0")/.."
seeds=$1 tier=$2; shift 2
for c in "$@"; do
  for s in $seeds; do
    out=$(VERIF_SEED=$s VERIF_EVIDENCE=${SWEEP_EV:-/tmp/p/evs} bin/check $c --tier $tier 2>&1); rc=$?
    if [ $rc -ne 0 ]; then echo "== $c seed $s rc $rc"; echo "$out" | cut -c1-700; else echo "$out" | tail -1; fi
  done
done
