#!/bin/bash
# run.sh ID quick|thorough     run the check of one property against /repo's working tree
# run.sh ID replay FILE        run the one execution that FILE describes
set -u
id=$1
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GO111MODULE=on GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
if [ ! -f /repo/go.mod ] && [ -f /opt/vp/gomod/go.mod ]; then cp /opt/vp/gomod/go.mod /opt/vp/gomod/go.sum /repo/; fi
tmp=$(mktemp -d "${TMPDIR:-/tmp}/verif-$id-XXXXXX") || exit 3
trap 'rm -rf "$tmp"' EXIT
# go may rewrite go.mod/go.sum of the main module: build a copy
cp -r /verif/harness "$tmp/h" || exit 3
cp /repo/go.sum "$tmp/h/go.sum" 2>/dev/null
race=
case "$id" in C30) race=-race ;; esac
if ! (cd "$tmp/h" && go build -trimpath $race -o "$tmp/check" . ) >"$tmp/build.log" 2>&1; then
    cat "$tmp/build.log" >&2
    echo "BUILD-ERROR property=$id" >&2
    exit 3
fi
if [ "$id" = C30 ]; then
    if ! (cd "$tmp/h" && go build -trimpath -race -o "$tmp/cold30" ./cmd/cold30 ) >"$tmp/build.log" 2>&1; then
        cat "$tmp/build.log" >&2
        echo "BUILD-ERROR property=$id" >&2
        exit 3
    fi
    export VERIF_COLD30="$tmp/cold30"
fi
if [ "${2:-}" = setup ]; then
    (cd "$tmp/h" && go build -trimpath -race -o "$tmp/check-race" . && go build -trimpath -race -o "$tmp/cold30" ./cmd/cold30 ) >"$tmp/build.log" 2>&1 || { cat "$tmp/build.log" >&2; exit 3; }
    exit 0
fi
rm -rf "$tmp/h"
TMPDIR="$tmp" "$tmp/check" "$@"
rc=$?
exit $rc
