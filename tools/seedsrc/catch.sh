#!/bin/bash
# for each seeded bug run the check of its property on a patched copy
cd /verif
for b in ${@:-$(ls seeded)}; do
  P=$(/opt/venv/bin/python -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  rm -rf /tmp/seed/r; cp -a /repo /tmp/seed/r; git -C /tmp/seed/r apply /verif/seeded/$b/patch.diff || echo APPLYFAIL
  o=$(VERIF_REPO=/tmp/seed/r ./check.py $P 2>&1); rc=$?
  echo "$b $P rc=$rc $(echo "$o" | grep -c '^VIOLATION') $(echo "$o" | grep -E '\[sat\]|INCONC' | head -1 | cut -c1-150)"
done
