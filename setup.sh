#!/bin/bash
# Builds the checker once, to find out early if it doesn't build.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d /tmp/nmsetup.XXXXXX) || exit 2
trap 'rm -rf "$dir"' EXIT
cd "$here/mc" && go build -o "$dir/nmcheck" . && mkdir -p "$here/evidence"
