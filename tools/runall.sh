#!/bin/bash
# run every check of a tier; prints the summary lines
T=${1:-quick}; shift
for i in ${@:-01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24}; do
  timeout 1800 python3-vt "$(dirname "$0")"/../symx/py/check.py C$i --tier $T 2>&1 | grep -v "KNOWN-F" | tail -2 | cut -c1-260; echo "   exit ${PIPESTATUS[0]}"
done
