#!/bin/bash
# Runs the demonstration program beside this file against /repo (cwd), through a build overlay.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=0
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/zz_demo/main.go": "%s/main.go", "%s/parser.go": "", "%s/unparser.go": ""}}' "$PWD" "$here" "$PWD" "$PWD" > "$tmp/o.json"
go build -overlay "$tmp/o.json" -o "$tmp/demo" ./zz_demo || exit 2
cd "$tmp" && ./demo
