#!/bin/bash
# Builds the checker once, to show that it builds offline from the committed files.
cd "$(dirname "$0")/checker" || exit 1
. /opt/vp/env.sh 2>/dev/null
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
GOFLAGS=-mod=vendor GOWORK=off go build -o /dev/null .
