#!/bin/bash
# Builds the checker (offline, vendored dependencies) into /verif/bin.
cd "$(dirname "$0")/checker" || exit 1
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
unset GOROOT
GO=/opt/veriftools/go1.27.3/bin/go
[ -x "$GO" ] || GO=go
mkdir -p ../bin && "$GO" build -o ../bin/fcrcheck .
