#!/bin/bash
# mut.sh PROPERTY FILE 'python expression on s' : runs a check against a mutated scratch copy (/tmp/mut)
P=$1; F=/tmp/mut/boofcpp/src/boofcv/$2
git -C /tmp/mut checkout -q -- . 
python3 - "$F" "$3" <<'PY'
import sys
f,e=sys.argv[1:3]
s=open(f).read(); t=s
exec(e)
assert s!=t,'mutation did nothing'
open(f,'w').write(s)
PY
[ $? = 0 ] || exit 3
cd /verif && VC_REPO=/tmp/mut python3-vt check.py $P "${@:4}"
echo "rc=$?"
