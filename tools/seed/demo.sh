#!/bin/bash
# run with cwd = the velty repository: exit 0 when the demonstrated behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root GOROOT=/opt/veriftools/go1.23.12
export PATH=$GOROOT/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOENV=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" >"$tmp/o.json"
timeout 200 go test -vet=off -count=1 -timeout 120s -overlay "$tmp/o.json" -run '^TestDemo$' .
