#!/bin/bash
# Exit 0: the behaviour is right. Runs the tests beside this file inside the package (through a build overlay).
d=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOROOT=/opt/veriftools/go1.26.10 GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go","%s/zz_lib_test.go":"%s/lib_test.go"}}' "$PWD" "$d" "$PWD" "$d" > "$t/o.json"
cp go.mod go.sum "$t"
"$GOROOT/bin/go" test -vet=off -count=1 -timeout 200s -overlay "$t/o.json" -modfile "$t/go.mod" -run 'TestZZDemo' .
