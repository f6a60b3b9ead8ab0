#!/bin/bash
# ref.sh SCRIPT PROP...: apply a python edit script (cwd /tmp/mut) and run the checks; MOD env = module to vet
S=$1; shift
[ -d /tmp/mut ] || cp -a /repo /tmp/mut
cd /tmp/mut && git checkout -q -- . && git clean -qfd && git fetch -q /repo HEAD; git reset -q --hard $(git -C /repo rev-parse HEAD)
python3 $S || exit 1
. /opt/vp/env.sh
for d in $(git diff --name-only | xargs -n1 dirname | sort -u); do (cd $d && go vet . 2>&1 | grep -v '^#' | head -5); done
for p in "$@"; do /verif/bin/fcrcheck -repo /tmp/mut -root /tmp/mutroot -prop $p | cut -c1-330; done
git checkout -q -- . ; git clean -qfd
