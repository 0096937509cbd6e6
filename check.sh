#!/bin/bash
# check.sh <property> [quick|thorough]: verify the contracts of one property against /repo's current source.
cd "$(dirname "$0")" || exit 2
ROOT=$(pwd)
unset GOFLAGS
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p build evidence
(cd gover && go build -mod=vendor -o "$ROOT/build/gover" .) || exit 2
exec "$ROOT/build/gover" check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -verif "$ROOT" -repo "${VP_REPO:-/repo}"
