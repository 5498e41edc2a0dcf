#!/bin/bash
# check.sh <property>: decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
newer=$(find gover -name '*.go' -newer bin/gover 2>/dev/null | head -1)
if [ ! -x bin/gover ] || [ -n "$newer" ]; then
    mkdir -p bin || exit 2
    (cd gover && GOFLAGS=-mod=vendor go build -o ../bin/gover .) || exit 2
fi
t=$(mktemp -d) || exit 2
trap '[ -n "$t" ] && rm -rf "$t"' EXIT
cp /repo/v2/go.mod "$t/v2.mod" && cp /repo/v2/go.sum "$t/v2.sum" || exit 2
export GOFLAGS="-mod=mod -modfile=$t/v2.mod"
bin/gover check -root "$(pwd)" -repo /repo/v2 -scratch "$t" "$1"
