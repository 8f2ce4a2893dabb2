#!/bin/bash
# Exit 0: the tool makes of cases.txt what want.txt says.
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/pkg/zzdemo/main.go":"%s/demo.go"}}' "$PWD" "$HERE" >"$T/ov.json"
go build -overlay "$T/ov.json" -o "$T/demo" ./pkg/zzdemo || exit 3
timeout 60 "$T/demo" "$HERE/cases.txt" >"$T/got.txt" 2>"$T/err.txt" || { tail -5 "$T/err.txt"; exit 1; }
diff -u "$HERE/want.txt" "$T/got.txt"
