#!/bin/bash
# runs every claimed check, prints what is not quiet
cd "$(dirname "$0")/.."
for p in $(grep -o '"\?P[0-9][0-9]"\?' tools/techniques.py | tr -d '"' | sort -u); do
  ./run.sh $p > /tmp/runall.out 2>&1 || { echo "== $p"; cut -c1-400 /tmp/runall.out | head -${L:-8}; }
done
