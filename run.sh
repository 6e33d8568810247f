#!/bin/bash
# run.sh ID TIER: builds the harness against /repo's working tree in a scratch directory, runs one check, cleans up.
set -u
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
VERIF=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset GOROOT
export GOWORK=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export VERIF_SEED=${VERIF_SEED:-1} VERIF_DIR=$VERIF GIN_MODE=release
SCRATCH=$(mktemp -d /tmp/vh.XXXXXX) || exit 2
trap 'chmod -R u+w "$SCRATCH" 2>/dev/null; rm -rf "$SCRATCH"' EXIT
cp -r "$VERIF/harness" "$SCRATCH/harness" || exit 2
cd "$SCRATCH/harness" || exit 2
BUILD=()
case $ID in
C10) MODES=maps ;;
C14 | C15 | C16) MODES=fs ;;
*) MODES= ;;
esac
if [ -n "$MODES" ]; then # instrumented copies of files of the Go distribution
  mkdir "$SCRATCH/overlay" && python3 "$SCRATCH/harness/overlay/mk.py" "$SCRATCH/overlay" $MODES || exit 2
  BUILD=(-tags "vh$MODES" -overlay "$SCRATCH/overlay/overlay.json")
fi
CMDS=./cmd/vh
case $ID in
C13 | C14 | C15 | C16) CMDS="./cmd/vh ./cmd/vhcli" ;;
esac
if ! go build "${BUILD[@]}" -o "$SCRATCH/" $CMDS 2> "$SCRATCH/build.log"; then
  cat "$SCRATCH/build.log"; exit 2
fi
if [ "$ID" = C19 ]; then # the goroutines run in a program of their own, with instrumented copies of packages of /repo
  mkdir "$SCRATCH/sched" && go run ./cmd/vhinst "$SCRATCH/sched" /repo/astTraversal /repo/utils 2> "$SCRATCH/build.log" &&
    go build -race -tags vhsched -overlay "$SCRATCH/sched/overlay.json" -o "$SCRATCH/" ./cmd/vhsched 2>> "$SCRATCH/build.log" || { cat "$SCRATCH/build.log"; exit 2; }
fi
export VH_HARNESS=$SCRATCH/harness
cd "$SCRATCH"
"$SCRATCH/vh" "$ID" "$TIER" "$VERIF" "$SCRATCH"
