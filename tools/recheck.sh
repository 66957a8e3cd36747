#!/bin/bash
# recheck.sh [seeded ids]: run each planted change's check against a scratch copy of /repo carrying the change
S=$(mktemp -d /tmp/recheck.XXXX); chmod 755 $S; cp -a /repo/packages $S/; cp -a /repo/*.json $S/ 2>/dev/null; [ -e /repo/node_modules ] && ln -s /repo/node_modules $S/node_modules
cd $S && git init -q && git add -A packages >/dev/null && git -c user.email=a -c user.name=a commit -qm x
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls /verif/seeded))
for i in "${ids[@]}"; do p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  (cd /verif; VERIF_REPO=$S VERIF_SEED=1 VERIF_TIER=quick timeout 900 node harness/run.mjs $p > $S.out 2>&1); rc=$?
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p " $S.out; then echo "$i CAUGHT"; else echo "$i missed rc=$rc"; fi
  git checkout -q -- .
done
case $S in /tmp/recheck.????) rm -rf "$S" "$S.out";; esac
