#!/bin/bash
# check.sh PROPERTY TIER: builds the engine if needed and decides one property.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export GOTOOLCHAIN=local GOSUMDB=off
verif=$PWD
bin=$verif/bin/symgo
if [ ! -x "$bin" ] || [ -n "$(find engine -newer "$bin" -name '*.go' -print -quit)" ]; then
	mkdir -p bin
	(cd engine && GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin") || exit 2
fi
[ "$1" = build ] && exit 0
exec "$bin" -verif "$verif" -repo /repo -tier "${2:-quick}" "$1"
