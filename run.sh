#!/bin/bash
# run.sh Pxx [nmcheck flags]: builds the checker together with /repo's current
# working tree and runs the check of the property.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; shift
dir=$(mktemp -d /tmp/nmcheck.XXXXXX) || exit 2
trap 'rm -rf "$dir"' EXIT
export NM_VERIF=${NM_VERIF:-$here} NM_WORK=$dir NM_MC=$here/mc NM_REPO=/repo
(cd "$here/mc" && go build -o "$dir/nmcheck" .) || { echo "the check doesn't build"; exit 2; }
"$dir/nmcheck" -prop "$prop" "$@"
