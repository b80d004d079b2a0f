#!/bin/bash
# run every claimed check (or those named), four at a time; prints summary lines
cd "$(dirname "$0")/.."
one() { p=$1; s=$SECONDS; python3-vt engine/check.py $p > /tmp/all_$p.log 2>&1; rc=$?; echo "rc=$rc $((SECONDS-s))s $(grep -E 'VIOLATION|^P[0-9]+:' /tmp/all_$p.log | tr '\n' ' ')"; }
export -f one
printf '%s\n' ${@:-$(ls props/P*.py | sed 's/.*\(P[0-9]*\).py/\1/')} | xargs -P 4 -I{} bash -c 'one {}'
