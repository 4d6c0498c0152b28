#!/bin/bash
# run every check once on the current /repo (or SYMX_REPO), print exit code and time
cd /verif
for f in props/c[0-9][0-9].py; do
  i=$(basename $f .py | tr c C); s=$(date +%s)
  ./check.py $i "$@" > /tmp/runall_$i.log 2>&1; r=$?
  echo "$i exit $r $(( $(date +%s) - s ))s $(grep -c INCONCLUSIVE /tmp/runall_$i.log) inconclusive"
done
