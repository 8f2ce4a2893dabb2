#!/bin/bash
# Exit 0: what steps.sh makes of ddlctl (its databases replaced by driver.go) is what want.txt says.
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/pkg/ddlctl/import.go":"%s/driver.go"}}' "$PWD" "$HERE" >"$T/ov.json"
go build -overlay "$T/ov.json" -o "$T/bin/ddlctl" ./cmd/ddlctl || exit 3
mkdir "$T/w" && cp -r "$HERE/files/." "$T/w/" 2>/dev/null
(cd "$T/w" && PATH="$T/bin:$PATH" DEMO_LOG="$T/w/.log" timeout 120 bash "$HERE/steps.sh") >"$T/got.txt" 2>/dev/null
# comment lines name the directory
sed "s#$T/w#.#g" "$T/got.txt" | grep -v '^--\|^ *-- ' >"$T/got2.txt"
diff -u "$HERE/want.txt" "$T/got2.txt"
