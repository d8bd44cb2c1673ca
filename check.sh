#!/bin/bash
# check.sh PROPERTY: decides one property on /repo's working tree. Exit 0 or 1.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
mkdir -p bin evidence replay
(cd govc && go build -o ../bin/govc .) || { echo "govc does not build"; exit 2; }
exec bin/govc check -prop "$1" -repo "${VERIF_REPO_DIR:-/repo}" -specs contracts -out "$PWD"
