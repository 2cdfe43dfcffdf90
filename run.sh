#!/bin/bash
# run.sh PROPERTY TIER: one registered check.
V=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
if [ ! -x "$V/bin/gov" ] || [ -n "$(find "$V/gov" -name '*.go' -newer "$V/bin/gov" -print -quit)" ]; then
  bash "$V/build.sh" || exit 2
fi
GOV_VERIF=$V exec "$V/bin/gov" check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
