#!/bin/bash
# check.sh PROPERTY quick|thorough : decide one property on /repo's working tree
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS
"$here/setup.sh" >&2 || exit 2
exec "$here/bin/symgo" check "$1" "${2:-${VERIF_TIER:-quick}}" -verif "$here" -repo /repo "${@:3}"
