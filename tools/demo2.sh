#!/bin/bash
# Runs the demonstration program beside this file against /repo (cwd), through a build overlay; the stand-ins beside it
# take the place of the modules that are not available offline.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp go.mod "$tmp/go.mod"; cp go.sum "$tmp/go.sum"
for m in scanner smithy; do
  [ -d "$here/$m" ] && printf '\nreplace github.com/boynton/%s => %s/%s\n' "$m" "$here" "$m" >> "$tmp/go.mod"
done
printf '{"Replace": {"%s/zz_demo/main.go": "%s/main.go"}}' "$PWD" "$here" > "$tmp/o.json"
go build -modfile "$tmp/go.mod" -overlay "$tmp/o.json" -o "$tmp/demo" ./zz_demo || exit 2
go build -modfile "$tmp/go.mod" -o "$tmp/sadl" ./cmd/sadl || exit 2
cd "$tmp" && ./demo "$tmp/sadl"
