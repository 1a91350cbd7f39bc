#!/bin/bash
# usage: check.sh PROPERTY [--thorough]
# Builds the checker from its committed source and decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off VERIF_DIR="$PWD"
bin=$(mktemp -d "${TMPDIR:-/tmp}/verifchk.XXXXXX") || exit 2
trap 'rm -rf "$bin"' EXIT
(cd checker && GOFLAGS=-mod=vendor GOWORK=off go build -o "$bin/checker" .) || exit 2
"$bin/checker" "$@"
