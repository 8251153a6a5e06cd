#!/bin/bash
# Developer tool: trybugs.sh ID... : for each planted bug run its demo and its property's quick check with and without the change,
# in a scratch copy of /repo. VDIR selects the copy of /verif to use.
V=${VDIR:-/verif}; cd $V
T=$(mktemp -d /tmp/trycopy.XXXX); cp -a /repo $T/repo; R=$T/repo
git -C $R checkout -q -- . 
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  (cd $R && bash $V/seeded/$id/demo.sh >/tmp/w/demo0.log 2>&1); d0=$?
  git -C $R apply $V/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  git -C $R diff --name-only | grep -q '\.[ch]$' && (cd $R && cmake --build build/cmake >/dev/null 2>&1)
  (cd $R && bash $V/seeded/$id/demo.sh >/tmp/w/demo1.log 2>&1); d1=$?
  VERIF_REPO=$R VERIF_SEED=1 /opt/venv/bin/python check.py ${CHK:-$p} --tier quick --seed 1 >/tmp/w/check-$id.log 2>&1; c=$?
  git -C $R checkout -q -- .
  echo "$id $p demo clean=$d0 bug=$d1 check=$c $([ $d0 = 0 ] && [ $d1 != 0 ] && echo demo-ok) $([ $c = 1 ] && echo CAUGHT)  $(grep -h 'violations by' /tmp/w/check-$id.log | cut -c1-150)"
done
rm -rf "$T"
