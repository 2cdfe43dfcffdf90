#!/bin/bash
# Builds the verifier into /verif/bin (ignored by git).
set -e
V=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
export GOFLAGS=-mod=mod
mkdir -p "$V/bin"
cd "$V/gov"
go build -o "$V/bin/gov.$$" . && mv "$V/bin/gov.$$" "$V/bin/gov"
