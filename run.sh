#!/bin/bash
# ./run.sh <property id>: decides one property from /repo's current source.
cd "$(dirname "$0")" || exit 2
[ -x bin/fcrcheck ] && [ -z "$(find checker -newer bin/fcrcheck -name '*.go' -print -quit)" ] || ./setup.sh || exit 2
exec bin/fcrcheck -prop "$1"
