#!/bin/bash
# demo.sh template: runs demo_test.go beside it inside the package PKG of /repo
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
export GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
export PATH=/opt/veriftools/go1.23.12/bin:$PATH
O=$(mktemp); trap 'rm -f "$O"' EXIT
echo "{\"Replace\":{\"$PWD/PKG/zz_demo_test.go\":\"$D/demo_test.go\"}}" > "$O"
go test -vet=off -count=1 -timeout 250s -overlay "$O" -run '^TestZZDemo$' ./PKG
