#!/bin/bash
# Exit 0: the property holds; nonzero: it is broken.
# Runs demo_test.go (beside this file) as a test of the package in $PKGDIR.
PKGDIR=.
D=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOROOT=/opt/veriftools/go1.27.3 GOPATH=/root/go GOCACHE=${GOCACHE:-/root/.cache/go-build}
export PATH="$GOROOT/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on GOWORK=off
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export TMPDIR=$T
R=$(pwd)
for f in go.mod go.sum; do [ -e $f ] || cp /opt/vp/mod/$f $f; done
printf '{"Replace":{"%s/%s/zz_demo_test.go":"%s/demo_test.go"}}' "$R" "$PKGDIR" "$D" > $T/o.json
[ "$PKGDIR" = . ] && sed -i 's#/\./#/#' $T/o.json
go test -vet=off -count=1 -timeout 120s -overlay $T/o.json -run '^TestZZDemo' ./$PKGDIR
