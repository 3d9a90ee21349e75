#!/bin/bash
# build.sh [race]: instrument /repo's current working tree and build the simulator
# into /verif/.build.  Nothing is written to /repo or to /opt/vp.
set -e
cd "$(dirname "$0")"
V=$PWD
B=$V/.build
mkdir -p "$B"
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
for d in /opt/veriftools/go1.27.3/bin; do [ -d $d ] && export PATH=$d:$PATH; done
export GOCACHE=$B/gocache
if [ ! -d "$GOCACHE" ]; then
  if [ -d /opt/vp/cache/go-build ]; then cp -a /opt/vp/cache/go-build "$GOCACHE" 2>/dev/null || mkdir -p "$GOCACHE"; else mkdir -p "$GOCACHE"; fi
fi
exec 9>"$B/lock"
flock 9
export CGO_ENABLED=0
go build -o "$B/simgen" ./cmd/simgen
"$B/simgen" -repo /repo -out "$B/gen" -rt "$V/rt"
if [ "$1" = race ]; then
  CGO_ENABLED=1 go build -race -overlay "$B/gen/overlay_race.json" -o "$B/sim-race" ./sim
fi
go build -overlay "$B/gen/overlay.json" -o "$B/sim" ./sim
