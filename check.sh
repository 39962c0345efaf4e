#!/bin/bash
# check.sh PROP [flags]: builds the engine from /verif/gosym and checks one property of /repo.
# check.sh replay FILE: re-runs a reported counterexample natively.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_HOME="${VERIF_HOME:-$here}"
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GO111MODULE=on GOFLAGS=-mod=mod
export GOCACHE="${GOCACHE:-$(go env GOCACHE)}"
bin=$(mktemp -d /tmp/gosymbin.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
(cd "$here/gosym" && go build -o "$bin/gosym" .) || exit 2
if [ "$1" = replay ]; then
  "$bin/gosym" replay "$2"
else
  p=$1; shift
  "$bin/gosym" check -prop "$p" "$@"
fi
