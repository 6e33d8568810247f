#!/bin/bash
# Warms the build cache: builds the harness once. The checks do not depend on it.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOWORK=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
S=$(mktemp -d /tmp/vh.XXXXXX) || exit 1
trap 'rm -rf "$S"' EXIT
cp -r "$VERIF/harness" "$S/harness" && cd "$S/harness" && go build -o "$S/vh" ./cmd/vh
