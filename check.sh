#!/bin/bash
# check.sh ID: decides one property on the working tree of /repo
cd "$(dirname "$0")" || exit 2
if [ ! -x bin/govc ] || [ -n "$(find govc -newer bin/govc -name '*.go' -o -newer bin/govc -name contracts.txt)" ]; then
	bash build.sh >&2 || exit 2
fi
. /opt/vp/env.sh
exec bin/govc check "$1"
