#!/bin/bash
# mut.sh PROP FILE OLD NEW : one-off mutant in /tmp/mut
P=$1; F=$2
[ -d /tmp/mut ] || cp -a /repo /tmp/mut
cd /tmp/mut && git checkout -q -- . && git fetch -q /repo HEAD 2>/dev/null; git reset -q --hard $(git -C /repo rev-parse HEAD)
python3 - "$F" "$3" "$4" <<'P'
import sys
f,o,n=sys.argv[1:]
s=open(f).read()
assert o in s, "pattern not found"
s=s.replace(o,n,1)
open(f,'w').write(s)
P
[ $? = 0 ] || exit 1
/verif/bin/fcrcheck -repo /tmp/mut -root /tmp/mutroot -prop $P | cut -c1-260 | tail -${5:-4}
git checkout -q -- .
