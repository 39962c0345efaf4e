#!/bin/bash
# Builds the engine once (warms the build cache) and checks that it starts.
here=$(cd "$(dirname "$0")" && pwd)
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GO111MODULE=on GOFLAGS=-mod=mod
bin=$(mktemp -d /tmp/gosymbin.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
cd "$here/gosym" && go build -o "$bin/gosym" . && go vet ./smt >/dev/null 2>&1 && (cd "${VERIF_REPO:-/repo}" && go build ./... && go build -race ./transformation/) && echo ok
