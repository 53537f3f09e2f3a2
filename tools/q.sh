#!/bin/bash
# quick look at several checks: tools/q.sh H01 H02 ...
cd "$(dirname "$0")/.."
for i in "$@"; do ./check.py $i 2>&1 | cut -c1-${W:-400} | head -${N:-25}; echo "  rc=${PIPESTATUS[0]}"; done
