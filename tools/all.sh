#!/bin/bash
# all quick checks, P at a time (default 3): prints those that are not quiet
cd "$(dirname "$0")/.."
T=${T:-quick}; O=${O:-/tmp/qall}; mkdir -p $O
ids=$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")
echo ${@:-$ids} | tr ' ' '\n' | xargs -P${P:-3} -I{} sh -c "timeout 1800 ./check.py {} --tier $T > $O/{}.out 2>&1; echo {} rc=\$? \$(grep -o 'wall [0-9.]* s' $O/{}.out | tail -1) \$(tail -1 $O/{}.out | cut -c1-200)" > $O.txt
grep -v "rc=0" $O.txt; echo "$(grep -c rc=0 $O.txt) quiet"
