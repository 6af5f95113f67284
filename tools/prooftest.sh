#!/bin/bash
# usage: prooftest.sh ID...   Does the proof alone (no run-time checks) notice the planted bug?
one() {
  id=$1; S=/verif/seeded/$id; T=$(mktemp -d /tmp/seed.XXXXXX)
  cp -a /repo $T/repo; cd $T/repo; git apply $S/patch.diff || return
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  PYTHONPATH=$T/repo PYVC_REPO=$T/repo timeout 900 /verif/bin/check $prop --no-native >$T/log 2>&1; r=$?
  echo "$id [$prop] proof:$r $(grep -v '^VIOLATION' $T/log | cut -c1-200 | head -${LINES_:-2} | tr '\n' '|')"
  cd /; rm -rf "$T"
}
for i in "$@"; do one $i; done
