#!/bin/bash
# runs every check on the current tree: runall.sh TIER SEED [SEED...]; prints the summary lines and every alarm
cd "$(dirname "$0")/.."
t=$1; shift
for s in "$@"; do
    for c in $(seq -w 1 32); do
        timeout 3000 python3 check.py C$c $t --seed $s > /tmp/runall.$$.log 2>&1 || { echo "FAILED C$c seed $s"; grep -A1 VIOLATION /tmp/runall.$$.log | cut -c1-400; }
        tail -1 /tmp/runall.$$.log
    done
done
rm -f /tmp/runall.$$.log
