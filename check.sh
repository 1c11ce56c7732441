#!/bin/bash
# check.sh ID [quick|thorough] [more flags for the explorer]
# Builds what the check of property ID needs from /repo's working tree and runs it.
set -u
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift; shift || true
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$V VERIF_TIER=$TIER VERIF_SEED=${VERIF_SEED:-1}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
B=$V/.build; mkdir -p "$B" "$V/evidence" "$V/replays"
cd "$V/harness" || exit 2
err() { echo "check.sh: $*" >&2; exit 2; }
gobuild() { # name pkg [build flags]
  local n=$1 p=$2; shift 2
  go build "$@" -o "$B/$n.$$" "$p" && mv -f "$B/$n.$$" "$B/$n"
}
mkov() { gobuild mkov ./cmd/mkov; }
TUNE='RestartAfter=2,RestartFactor=1,PropTick=0,2048=2'
case $ID in
C01|C02|C03|C04|C05|C06|C07|C13|C20)
  BIN=core; gobuild core ./cmd/core || err build ;;
C08|C10)
  BIN=coreS; mkov || err mkov
  "$B/mkov" -repo /repo -out "$B/ovS" -tune "$TUNE" -vtime -shims "$V/harness/shims" internal/xo || err mkov
  gobuild coreS ./cmd/core -tags vt -overlay "$B/ovS/overlay.json" || err build ;;
C14|C15|C16|C17)
  BIN=logic; gobuild logic ./cmd/logic || err build ;;
C18|C19)
  BIN=aig; gobuild aig ./cmd/aig || err build ;;
C11|C12)
  BIN=txt; gobuild txt ./cmd/txt || err build ;;
C25)
  BIN=gens; mkov || err mkov
  "$B/mkov" -repo /repo -out "$B/ovR" -vrand -shims "$V/harness/shims" gen || err mkov
  gobuild gens ./cmd/gens -tags vrand -overlay "$B/ovR/overlay.json" || err build ;;
C09|C21|C22|C23|C24)
  BIN=sched; mkov || err mkov
  "$B/mkov" -repo /repo -out "$B/ovC" -sched -tune "$TUNE" -shims "$V/harness/shims" internal/xo ax gen crisp || err mkov
  gobuild sched ./cmd/sched -tags sched -overlay "$B/ovC/overlay.json" || err build
  # with the race detector, which must not see the scheduler itself
  F="-race=false -l" G=github.com/go-air/gini
  [ $ID = C22 ] || CGO_ENABLED=1 gobuild sched-race ./cmd/sched -race -tags sched -overlay "$B/ovC/overlay.json" \
    -gcflags="$G/vsched=$F" -gcflags="$G/vatomic=$F" -gcflags="$G/vsync=$F" -gcflags="$G/vstime=$F" \
    -gcflags="$G/vnet=$F" -gcflags="$G/vruntime=$F" -gcflags="vh/eng=$F" -gcflags="vh/sat=$F" || err build ;;
C26)
  BIN=cli; gobuild cli ./cmd/cli || err build
  export VERIF_BIN=$B/bin; mkdir -p "$VERIF_BIN"
  for p in gini crispd; do
    (cd /repo && GOFLAGS=-mod=readonly go build -o "$VERIF_BIN/$p.$$" "./cmd/$p" && mv -f "$VERIF_BIN/$p.$$" "$VERIF_BIN/$p") || err build
  done ;;
C27)
  BIN=benchc; mkov || err mkov
  "$B/mkov" -repo /repo -out "$B/ovB" -vos -vrand -shims "$V/harness/shims" bench || err mkov
  gobuild benchc ./cmd/bench -overlay "$B/ovB/overlay.json" || err build
  export VERIF_BIN=$B/bin; mkdir -p "$VERIF_BIN"
  (cd /repo && GOFLAGS=-mod=readonly go build -o "$VERIF_BIN/bench.$$" ./cmd/bench && mv -f "$VERIF_BIN/bench.$$" "$VERIF_BIN/bench") || err build ;;
*) err "no check for $ID" ;;
esac
exec "$B/$BIN" -prop "$ID" -tier "$TIER" "$@"
