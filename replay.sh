#!/bin/bash
# replay.sh ID FILE: runs the recorded input on the code in /repo
. /opt/vp/env.sh
cd "$(dirname "$0")/vspec" || exit 2
GOFLAGS=-mod=readonly exec go run ./cmd/replay -prop "$1" -one "$2"
