#!/bin/bash
# usage: seedtest.sh ID...   Checks a planted bug in scratch copies of /repo:
# the demo passes without and fails with the patch, the stable tests still
# pass, and which checks notice (ALL=1 runs every check, else only its own).
test_one() {
  id=$1; S=/verif/seeded/$id; T=$(mktemp -d /tmp/seed.XXXXXX); L=/tmp/seedlog/$id; mkdir -p /tmp/seedlog
  cp -a /repo $T/repo; cp -r $S $T/demo; rm -f $T/demo/*.diff $T/demo/meta.json
  cd $T/repo
  export PYTHONPATH=$T/repo MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0 VERIF_SEED=1
  bash $T/demo/demo.sh >$L.demo0 2>&1; d0=$?
  git apply $S/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; return; }
  bash $T/demo/demo.sh >$L.demo1 2>&1; d1=$?
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  t=skipped
  if [ -z "$NOTEST" ]; then
  /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:xdist --timeout=200 --session-timeout=700 \
    --continue-on-collection-errors -o junit_family=xunit2 --junitxml=$T/junit.xml >$L.test 2>&1
  /opt/venv/bin/python /opt/vp/results.py $T/o.json junit:$T/junit.xml >/dev/null 2>&1
  t=$(python3 - <<P
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('$T/o.json'))['passed'])
m=sorted(s-p); print('pass' if not m else 'FAIL %d: %s'%(len(m), ' '.join(m[:4])))
P
)
  fi
  res=""
  for c in ${CHECKS:-$prop}; do
    PYVC_REPO=$T/repo timeout 900 /verif/bin/check $c >$L.$c 2>&1; r=$?
    res="$res $c:$r:$(grep -c no-failing-input-found $L.$c)"
  done
  echo "$id [$prop] demo $d0/$d1 tests $t checks$res"
  cd /; rm -rf "$T"
}
for i in "$@"; do test_one $i; done
