#!/bin/bash
# Warms the build cache and fails if the harness cannot be built offline.
set -eu
cd "$(dirname "$0")"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS="-mod=readonly -buildvcs=false"
work=$(mktemp -d "${TMPDIR:-/tmp}/verif-setup-XXXXXX")
trap 'rm -rf "$work"' EXIT
(cd harness && go build -o "$work/vh" . && go build -race -o "$work/vhr" .)
(cd /repo && go build -o "$work/mustache" ./cmd/mustache)
