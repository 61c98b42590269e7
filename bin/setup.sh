#!/bin/bash
# Warms the build caches (plain and race) and checks that the tools are there.
set -e
cd "$(dirname "$0")/.."
export GOROOT=/opt/veriftools/go1.27.3 GOPATH=/root/go GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on GOWORK=off
export PATH=$GOROOT/bin:$PATH
for f in go.mod go.sum; do [ -e /repo/$f ] || cp /opt/vp/mod/$f /repo/$f; done
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
(cd harness && go test -c -vet=off -o "$tmp/a" ./drive && go test -c -vet=off -race -o "$tmp/b" ./drive &&
 go build -o "$tmp/c" sourcegraph.com/sourcegraph/appdash/cmd/appdash)
java -version 2>&1 | head -1
