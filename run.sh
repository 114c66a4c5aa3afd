#!/bin/bash
# usage: run.sh <property-id>   (VERIF_TIER, VERIF_SEED from the environment)
# Builds the analyzer from /verif/analyzer and decides one property on /repo's current source.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0 GOWORK=off
export GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
bin="$(mktemp -d /tmp/btpverif.XXXXXX)"
trap 'rm -rf "$bin"' EXIT
if ! (cd "$here/analyzer" && go build -o "$bin/an" .) ; then
  echo "analyzer does not build"; exit 2
fi
"$bin/an" -repo /repo -verif "$here" -prop "$1"
