#!/bin/bash
# /tmp/sweep.sh SEEDS CHECKS...
cd /tmp/sweep
seeds=$1; shift
for s in $seeds; do for c in "$@"; do
  t=$(date +%s)
  VERIF_SEED=$s VERIF_TIER=${TIER:-quick} timeout ${TMO:-900} python3 check.py $c > /tmp/sweep.$c.$s.out 2>&1; rc=$?
  echo "$c seed $s rc $rc $(( $(date +%s) - t )) s" >> /tmp/sweep.log
done; done
echo done >> /tmp/sweep.log
