#!/bin/bash
# Developer tool: testbugs.sh ID... : apply the planted bugs together in a scratch copy and run the repository's stable tests there.
T=$(mktemp -d /tmp/bugcopy.XXXX); cp -a /repo $T/repo
for id in "$@"; do git -C $T/repo apply /verif/seeded/$id/patch.diff || echo "no apply $id"; done
cd $T/repo
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH=$T/repo:/opt/vp/plugins
cmake --build build/cmake >/dev/null 2>&1
timeout 1500 /opt/venv/bin/python -m pytest -p no:cacheprovider -p vp_seed --timeout=600 --continue-on-collection-errors -n ${N:-8} --dist loadscope --no-loadscope-reorder --override-ini=junit_family=xunit2 --junitxml=$T/j.xml vayesta/tests >$T/log 2>&1
tail -1 $T/log; grep -a "^FAILED\|^ERROR" $T/log | cut -c1-200
/usr/bin/python3 /opt/vp/results.py $T/o.json junit:$T/j.xml
python3 - $T/o.json <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=set(json.load(open(sys.argv[1]))['passed'])
print('stable tests failing:', [t for t in b if t not in r])
PY
rm -rf "$T"
