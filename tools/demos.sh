#!/bin/bash
# demos.sh: run every seeded demo on the unchanged tree; prints those that fail
cd /repo
for d in /verif/seeded/*/; do bash $d/demo.sh >/tmp/demo.out 2>&1 || { echo "FAIL $d"; tail -5 /tmp/demo.out; }; done
git -C /repo status --short
