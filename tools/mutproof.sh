#!/bin/bash
# usage: mutproof.sh PROP FILE OLD NEW [check args]   Does the proof alone notice this replacement?
P=$1; F=$2; O=$3; N=$4; shift 4
T=$(mktemp -d /tmp/mut.XXXXXX); cp -a /repo $T/repo
python3 - "$T/repo/$F" "$O" "$N" <<'PY' || { rm -rf "$T"; exit 9; }
import sys
p,o,n=sys.argv[1:]; s=open(p).read(); assert s.count(o)>=1,'not found'; open(p,'w').write(s.replace(o,n,1))
PY
PYTHONPATH=$T/repo PYVC_REPO=$T/repo timeout 900 /verif/bin/check $P --no-native "$@" >$T/log 2>&1; r=$?
echo "== [$P] $O -> $N : $r"; grep -v '^VIOLATION\|^   \|^$\|Traceback' $T/log | cut -c1-${W:-220} | head -${L:-4}
rm -rf "$T"
