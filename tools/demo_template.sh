#!/bin/bash
# Runs demo_test.go against the package in the current directory, through an overlay.
D=$(cd "$(dirname "$0")" && pwd)
PKG=@PKG@
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/gopath/src/github.com/mit-dci"
ln -s "$PWD" "$W/gopath/src/github.com/mit-dci/zksigma"
export HOME=${HOME:-/root} GO111MODULE=off GOPATH="$W/gopath" GOPROXY=off GOTOOLCHAIN=local GOFLAGS= GOWORK=off
echo "{\"Replace\": {\"$W/gopath/src/github.com/mit-dci/zksigma$PKG/zz_demo_test.go\": \"$D/demo_test.go\"}}" > "$W/overlay.json"
cd "$W/gopath/src/github.com/mit-dci/zksigma$PKG" || exit 2
go test @FLAGS@ -vet=off -count=1 -timeout 200s -overlay "$W/overlay.json" -run '^TestDemo$' "github.com/mit-dci/zksigma$PKG"
