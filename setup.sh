#!/bin/bash
# Builds the condition generator into /verif/bin.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin || exit 2
(cd gover && GOFLAGS=-mod=vendor go build -o ../bin/gover .) || exit 2
# warm the compile cache for the harness (the results do not matter)
if [ -d /repo/v2 ]; then
    t=$(mktemp -d) || exit 2
    cp /repo/v2/go.mod "$t/v2.mod" && cat /repo/v2/go.sum > "$t/v2.sum"
    (cd /repo/v2 && GOFLAGS="-mod=mod -modfile=$t/v2.mod" go test -vet=off -c -o "$t/a" . >/dev/null 2>&1
     GOFLAGS="-mod=mod -modfile=$t/v2.mod" go test -race -vet=off -c -o "$t/b" . >/dev/null 2>&1)
    [ -n "$t" ] && rm -rf "$t"
fi
exit 0
