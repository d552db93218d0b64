#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   (run in /verif)
cd "$(dirname "$0")" || exit 2
V=$(pwd)
export PATH=/opt/veriftools/go1.27.3/bin:/opt/veriftools/bin:$PATH
export GOENV=off GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GO111MODULE=on
export GOCACHE=$V/build/gocache GOPATH=$V/build/gopath
mkdir -p build evidence
(cd gover && go build -o "$V/build/gover.$$" .) || { echo "the verifier does not build"; exit 2; }
mv -f "build/gover.$$" build/gover
REPO=${VERIF_REPO:-/repo}
exec build/gover check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}" -verif "$V" -repo "$REPO"
