#!/bin/bash
# builds the verifier and warms the build cache of the native replay runner
cd "$(dirname "$0")" || exit 2
V=$(pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOENV=off GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GO111MODULE=on
export GOCACHE=$V/build/gocache GOPATH=$V/build/gopath
mkdir -p build evidence
(cd gover && go build -o "$V/build/gover" .)
